//@proof grant kind=bounded unwind=18 unwindfn=user_cache_find:4,memcmp:3 timeout=200 covers=auth bound=two_users,_clock_of_16_bits_of_seconds
//@flags -DVF_NO_REALLOC
//@assume auth() is checked against the contracts of jwt_decode, jwt_decode_data, jwt_decode_validate (validate.c) and of the cache (history.c)
#include <vf.h>
#include <amelie_runtime>
#include <amelie_user.h>
#include <amelie_auth.h>
#include <vf_env.h>
#ifdef VF_CBMC
/*
 * auth() against the contracts of the functions it calls: reading a token
 * gives its parts or raises an error, validation raises an error unless the
 * signature is one by the secret given, the cache has what was added to it.
 */
static int64_t  now_ms;
static char     text[16];
static Str      token;
static char     names[3][1];                /* user 0, user 1, the token's subject */
static char     secrets[3][1];              /* user 0, user 1, the signature's */
static int64_t  t_iat, t_exp;
static User     users[2];
static UserConfig configs[2];
static AuthCacheNode node;
static bool     hit;
static int      removed, validated, added;

void timer_mgr_update(TimerMgr* self) { self->time_ms = now_ms; self->time_us = now_ms * 1000; }
uint64_t timer_mgr_gettime(void) { return now_ms * 1000000; }

void jwt_decode_init(JwtDecode* self) { (void)self; }
void jwt_decode_free(JwtDecode* self) { (void)self; }
void jwt_decode_reset(JwtDecode* self) { (void)self; validated = 0; }
void jwt_decode(JwtDecode* self, Str* t)
{
	VF_ENSURES(t->pos == text && t->end == text + 16, "auth: the token given is read");
	str_set(&self->header, text + 7, 2);
	str_set(&self->payload, text + 10, 3);
	str_set(&self->digest_origin, text + 7, 6);
	str_set(&self->digest, text + 14, 2);
}
void jwt_decode_data(JwtDecode* self, Str* sub, int64_t* iat, int64_t* exp)
{
	(void)self;
	str_set(sub, names[2], 1);
	*iat = t_iat;
	*exp = t_exp;
}
void jwt_decode_validate(JwtDecode* self, Str* secret)
{
	VF_ENSURES(self->digest.pos == text + 14 && self->digest_origin.pos == text + 7, "auth: the signature checked is the token's");
	if (str_empty(secret) || secret->pos[0] != secrets[2][0])
		vf_throw();
	validated = secret == &configs[0].secret ? 1 : secret == &configs[1].secret ? 2 : 3;
}

/* a key of the cache stands for one token only */
static void whole(Str* key)
{
	int size = str_size(key);
	VF_ENSURES(size >= 9 && size <= 16, "auth: tokens are remembered as a whole");
	for (int i = 7; i < 16; i++)
		VF_ENSURES(key->pos[size - 16 + i] == text[i], "auth: tokens are remembered as a whole");
}
void auth_cache_init(AuthCache* self) { (void)self; }
void auth_cache_free(AuthCache* self) { (void)self; }
void auth_cache_reset(AuthCache* self) { (void)self; }
void auth_cache_prepare(AuthCache* self) { (void)self; }
void auth_cache_add(AuthCache* self, User* user, Str* digest, int64_t expire)
{
	(void)self;
	whole(digest);
	added++;
	int u = user == &users[0] ? 0 : 1;
	VF_ENSURES(validated == 1 + u && user == &users[u], "auth: only validated tokens are remembered");
	VF_ENSURES(expire <= t_exp, "auth: tokens are not remembered longer than they are valid");
	VF_ENSURES(names[u][0] == names[2][0], "auth: for the user they name");
}
void auth_cache_del(AuthCache* self, AuthCacheNode* n)
{
	(void)self;
	VF_ENSURES(n == &node && hit, "auth: a token is forgotten once");
	hit = false;
	removed++;
}
AuthCacheNode* auth_cache_find(AuthCache* self, Str* digest)
{
	(void)self;
	whole(digest);
	return hit ? &node : NULL;
}
#include "auth/auth.c"
#endif

VF_PROOF(grant)
{
	vf_init();
	VF_REACH("token");
#ifdef VF_CBMC
	for (int i = 0; i < 16; i++)
		text[i] = vf_u8();
	for (int i = 0; i < 3; i++)
	{
		names[i][0]   = vf_u8();
		secrets[i][0] = vf_u8();
	}
	VF_REQUIRES(names[0][0] != names[1][0]);
	now_ms = vf_u16() * 1000ll + (vf_u16() & 511);
	t_iat  = vf_u64();
	t_exp  = vf_u64();
	hit    = vf_bool();
	static Auth self;
	user_cache_init(&self.user_cache);
	enum { count = 2 };
	bool empty[2];
	for (int i = 0; i < 2; i++)
	{
		str_set(&configs[i].name, names[i], 1);
		empty[i] = vf_bool();
		str_set(&configs[i].secret, secrets[i], empty[i] ? 0 : 1);
		users[i].config = &configs[i];
		list_init(&users[i].link);
		if (i < count)
			user_cache_add(&self.user_cache, &users[i]);
	}
	/* what is in the cache was validated for its user when it was added */
	node.expire = vf_u64();
	int u = vf_range(0, 1);
	node.user = &users[u];
	str_set(&node.digest, text + 7, 9);

	int64_t now = now_ms / 1000;
	int  n = names[2][0] == names[0][0] && count > 0 ? 0 : names[2][0] == names[1][0] && count > 1 ? 1 : -1;
	bool want, cached = hit;
	if (cached)
	{
		want = now < node.expire;
		VF_REQUIRES(u < count);
	} else
		want = t_iat != 0 && t_exp != 0 && t_iat <= t_exp && now < t_exp && n >= 0 && ! empty[n] && secrets[n][0] == secrets[2][0];
	vf_may_throw = ! want;
	str_set(&token, text, 16);
	auto user = auth(&self, &token);
	VF_ENSURES(want, "auth: only valid tokens authenticate");
	VF_ENSURES(user == (cached ? &users[u] : &users[n]), "auth: as the user they name");
	VF_ENSURES(cached || (validated == 1 + n), "auth: the signature is checked with the secret of the user");
	VF_REACH("granted");
#endif
}
