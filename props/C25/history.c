//@proof history kind=native fuzz=40000 ttimeout=300 bound=histories_of_up_to_60_steps_over_6_users_and_2_frontends covers=auth,auth_sync,auth_cache_add,auth_cache_find,auth_cache_del,jwt_create,jwt_encode,jwt_decode,jwt_decode_data,jwt_decode_validate,user_cache_sync,user_cache_find,user_mgr_create,user_mgr_drop,user_mgr_alter,user_mgr_open
//@link -lcrypto
#include <vf.h>
#include <amelie_runtime>
#include <amelie_user.h>
#include <amelie_auth.h>
#include <vf_env.h>
#ifndef VF_CBMC
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include "base/timer_mgr.c"
#include "json/json_parser.c"
#include "json/json_export.c"
#include "lib/base64url.c"
#include "lib/date.c"
#include "lib/interval.c"
#include "lib/timezone.c"
#include "lib/timestamp.c"
#include "lib/uuid.c"
#include "os/vfs.c"
#include "runtime/opts.c"
#include "runtime/state.c"
#include "user/user_mgr.c"
#include "auth/auth_cache.c"
#include "auth/auth.c"
#include "auth/jwt.c"
#include "auth/jwt_encode.c"
#include "auth/jwt_decode.c"

/*
 * The users and secrets the administrator has set, what each frontend was
 * told last, and the tokens in circulation (genuine, forged and damaged).
 * A token authenticates exactly when it is one the oracle below, written
 * from RFC 7519 and the documentation, accepts at this moment.
 */
#define USERS 6
#define FRONT 2
#define TOKENS 24
typedef struct { bool set; int secret; } ModelUser;
static ModelUser model[USERS], seen[FRONT][USERS];
static const char* names[USERS] = { "admin", "admi", "A", "us\"er", "Admin", "\xc3\xa9t\xc3\xa9" };
static const char* secrets[] = { "", "secret", "secreT", "s", "secret1", "a much longer secret that is longer than one block of the hash function used, 64 bytes" };
#define SECRETS 6

typedef struct
{
	char    text[1024];
	int     size;
	/* what it is, when it is genuine */
	bool    good;
	int     user, secret;
	int64_t iat, exp;
} Token;
static Token tokens[TOKENS];
static int   tokens_count;

static Runtime      rt;
static RuntimeIf    iface;
static UserMgr      mgr;
static Auth         fronts[FRONT];
static int64_t      now;
static int          saves;

static void save(void* arg)
{
	(void)arg;
	saves++;
}

static void set_time(int64_t sec)
{
	now = sec;
	vf_task.timer_mgr.time_cached = true;
	vf_task.timer_mgr.time_ms = sec * 1000 + vf_range(0, 999);
	vf_task.timer_mgr.time_us = vf_task.timer_mgr.time_ms * 1000;
}

static Str str_c(const char* s)
{
	Str str;
	str_set(&str, (char*)s, strlen(s));
	return str;
}

/* the same token, made here */
static int b64(char* out, const void* in, int size)
{
	static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
	const uint8_t* p = in;
	int n = 0;
	for (int i = 0; i < size; i += 3)
	{
		int left = size - i;
		uint32_t v = p[i] << 16 | (left > 1 ? p[i + 1] << 8 : 0) | (left > 2 ? p[i + 2] : 0);
		out[n++] = a[v >> 18];
		out[n++] = a[v >> 12 & 63];
		if (left > 1)
			out[n++] = a[v >> 6 & 63];
		if (left > 2)
			out[n++] = a[v & 63];
	}
	return n;
}

static void make(Token* t, const char* header, const char* payload, const char* secret)
{
	char* p = t->text + sprintf(t->text, "Bearer ");
	char* start = p;
	p += b64(p, header, strlen(header));
	*p++ = '.';
	p += b64(p, payload, strlen(payload));
	uint8_t digest[32];
	HMAC(EVP_sha256(), secret, strlen(secret), (uint8_t*)start, p - start, digest, NULL);
	*p++ = '.';
	p += b64(p, digest, 32);
	t->size = p - t->text;
}

static void json_name(char* out, const char* name)
{
	for (; *name; name++)
	{
		if (*name == '"')
			*out++ = '\\';
		*out++ = *name;
	}
	*out = 0;
}

static void issue(Token* t)
{
	memset(t, 0, sizeof(*t));
	t->user   = vf_range(0, USERS - 1);
	t->secret = vf_range(0, SECRETS - 1);
	if (model[t->user].set && vf_range(0, 3))
		t->secret = model[t->user].secret;
	int mode = vf_range(0, 8);
	if (mode < 4)
	{
		/* as the server issues it */
		t->iat  = now;
		t->exp  = now + vf_srange(-5, 60);
		Timestamp ts;
		timestamp_init(&ts);
		timestamp_set_unixtime(&ts, t->exp * 1000000 + vf_range(0, 999999));
		auto user   = str_c(names[t->user]);
		auto secret = str_c(secrets[t->secret]);
		Buf* buf = NULL;
		bool no_exp = vf_range(0, 7) == 0;
		bool raised = error_catch( buf = jwt_create(&user, &secret, no_exp ? NULL : &ts) );
		VF_ENSURES(raised == (t->secret == 0), "token: issued exactly with a secret");
		if (raised)
			return;
		t->size = sprintf(t->text, "Bearer %.*s", (int)buf_size(buf), (char*)buf->start);
		t->good = !no_exp;
		/* it says what was asked */
		Token same;
		char payload[512], name[64];
		json_name(name, names[t->user]);
		if (no_exp)
			sprintf(payload, "{\"sub\": \"%s\", \"iat\": %" PRIi64 "}", name, t->iat);
		else
			sprintf(payload, "{\"sub\": \"%s\", \"iat\": %" PRIi64 ", \"exp\": %" PRIi64 "}", name, t->iat, t->exp);
		make(&same, "{\"alg\":\"HS256\",\"typ\":\"JWT\"}", payload, secrets[t->secret]);
		VF_ENSURES(same.size == t->size && !memcmp(same.text, t->text, t->size), "token: issued for the user, now, until the time asked, signed by the secret");
		buf_free(buf);
		return;
	}
	/* as another issuer writes it */
	t->iat  = now + vf_srange(-100, 20);
	t->exp  = now + vf_srange(-20, 100);
	t->good = true;
	const char* header = "{\"typ\":\"JWT\",\"alg\":\"HS256\"}";
	char payload[512], name[64];
	json_name(name, names[t->user]);
	switch (mode) {
	case 4:
		sprintf(payload, "{\"exp\":%" PRIi64 ", \"iat\":%" PRIi64 ", \"sub\":\"%s\"}", t->exp, t->iat, name);
		break;
	case 5:
	{
		static const char* headers[] =
		{
			"{\"typ\":\"JWT\",\"alg\":\"none\"}", "{\"typ\":\"JWT\",\"alg\":\"HS512\"}", "{\"typ\":\"JWT\"}", "{\"alg\":\"HS256\"}", "[]", "{}", "null", "{\"typ\":\"JWT\",\"alg\":1}",
			"{\"typ\":\"JWE\",\"alg\":\"HS256\"}", "x"
		};
		header = headers[vf_range(0, 9)];
		sprintf(payload, "{\"sub\": \"%s\", \"iat\": %" PRIi64 ", \"exp\": %" PRIi64 "}", name, t->iat, t->exp);
		t->good = false;
		break;
	}
	case 6:
		switch (vf_range(0, 5)) {
		case 0: t->iat = 0; break;
		case 1: t->exp = 0; break;
		case 2: t->exp = -t->exp; break;
		case 3: t->exp = INT64_MAX; break;
		case 4: t->iat = t->exp + 1; break;
		case 5: t->iat = -t->iat; break;
		}
		sprintf(payload, "{\"sub\": \"%s\", \"iat\": %" PRIi64 ", \"exp\": %" PRIi64 "}", name, t->iat, t->exp);
		break;
	case 7:
	{
		static const char* formats[] =
		{
			"{\"sub\": \"%s\", \"iat\": %" PRIi64 "}", "{\"sub\": \"%s\", \"exp\": %" PRIi64 "}", "{\"sub\": \"%s\", \"iat\": \"1\", \"exp\": %" PRIi64 "}",
			"{\"sub\": [\"%s\"], \"iat\": 1, \"exp\": %" PRIi64 "}", "[\"%s\", %" PRIi64 "]", "{\"sub\": \"%s\", \"iat\": 1, \"exp\": %" PRIi64 ".5}", "\"%s\"", "%s"
		};
		sprintf(payload, formats[vf_range(0, 7)], name, t->exp);
		t->good = false;
		break;
	}
	case 8:
		sprintf(payload, "{\"sub\": \"%s\", \"iat\": %" PRIi64 ", \"exp\": %" PRIi64 ", \"role\": {\"x\": [1]}}", name, t->iat, t->exp);
		break;
	}
	make(t, header, payload, secrets[t->secret]);
}

/* split at the two dots; false when they are not there */
static bool parts(const Token* t, int at[2])
{
	int n = 0;
	for (int i = 7; i < t->size; i++)
		if (t->text[i] == '.' && n < 2)
			at[n++] = i;
	return n == 2;
}

/* damage or recombination of tokens in circulation */
static void forge(Token* t)
{
	if (! tokens_count)
	{
		issue(t);
		return;
	}
	*t = tokens[vf_range(0, tokens_count - 1)];
	auto with = &tokens[vf_range(0, tokens_count - 1)];
	int a[2], b[2];
	char before[1024];
	int  before_size = t->size;
	memcpy(before, t->text, t->size);
	switch (vf_range(0, 5)) {
	case 0:
		if (t->size > 0)
		{
			static const char chars[] = "ABab01-_. =\"B\n";
			t->text[vf_range(0, t->size - 1)] = vf_bool() ? chars[vf_range(0, 12)] : (char)vf_u8();
		}
		break;
	case 1:
		t->size = vf_range(0, t->size);
		break;
	case 2:
	{
		/* the digest of another token */
		if (parts(t, a) && parts(with, b))
		{
			int n = with->size - b[1];
			memcpy(t->text + a[1], with->text + b[1], n);
			t->size = a[1] + n;
		}
		break;
	}
	case 3:
	{
		/* the header and payload of another token */
		if (parts(t, a) && parts(with, b))
		{
			char text[1024];
			int n = t->size - a[1];
			memcpy(text, t->text + a[1], n);
			memcpy(t->text, with->text, b[1]);
			memcpy(t->text + b[1], text, n);
			t->size = b[1] + n;
		}
		break;
	}
	case 4:
	{
		/* one dot elsewhere */
		if (parts(t, a))
		{
			int i = vf_range(0, 1);
			int to = a[i] + (vf_bool() ? 1 : -1);
			if (to > 7 && to < t->size)
			{
				char c = t->text[to];
				t->text[to] = t->text[a[i]];
				t->text[a[i]] = c;
			}
		}
		break;
	}
	case 5:
		if (t->size < 1000)
			t->text[t->size++] = ".A= "[vf_range(0, 3)];
		break;
	}
	if (before_size != t->size || memcmp(before, t->text, t->size))
		t->good = false;
}

/* is it the text of a genuine token? (two forgeries may restore one) */
static const Token* genuine(const Token* t)
{
	for (int i = 0; i < tokens_count; i++)
		if (tokens[i].good && tokens[i].size == t->size && !memcmp(tokens[i].text, t->text, t->size))
			return &tokens[i];
	return t->good ? t : NULL;
}

/* base64url has characters whose last bits are not used: such a text is the same digest */
static bool same_digest(const Token* t)
{
	int a[2];
	if (! parts(t, a))
		return false;
	int n = t->size - a[1] - 1;
	for (int i = 0; i < tokens_count; i++)
	{
		auto g = &tokens[i];
		int b[2];
		if (! g->good || ! parts(g, b) || a[1] != b[1] || memcmp(g->text, t->text, a[1]))
			continue;
		uint8_t digest[32];
		char    text[64];
		HMAC(EVP_sha256(), secrets[g->secret], strlen(secrets[g->secret]), (uint8_t*)g->text + 7, b[1] - 7, digest, NULL);
		int m = b64(text, digest, 32);
		if (n >= m - 1 && ! memcmp(text, t->text + a[1] + 1, m - 1))
			return true;
	}
	return false;
}

static void try_token(int f, Token* t)
{
	auto self = &fronts[f];
	/* exactly its bytes */
	char* copy = malloc(t->size ? t->size : 1);
	memcpy(copy, t->text, t->size);
	Str token;
	str_set(&token, copy, t->size);
	auto user = auth(self, &token);
	free(copy);

	auto g = genuine(t);
	bool want = g && g->iat != 0 && g->exp != 0 && g->iat <= g->exp && now < g->exp &&
	            seen[f][g->user].set && seen[f][g->user].secret == g->secret && g->secret != 0;
	if (! g && same_digest(t))
		return;
	VF_ENSURES((user != NULL) == want, "auth: a token authenticates exactly when signed by the secret of an existing user and not expired");
	if (user)
		VF_ENSURES(str_is(&user->config->name, names[g->user], strlen(names[g->user])), "auth: the user is the one the token names");
}

static void set_config(UserConfig* config, int user, int secret)
{
	auto name = str_c(names[user]);
	user_config_set_name(config, &name);
	auto sec = str_c(secrets[secret]);
	user_config_set_secret(config, &sec);
}

static void check_users(UserMgr* self)
{
	int n = 0;
	for (int i = 0; i < USERS; i++)
	{
		auto name = str_c(names[i]);
		auto user = user_cache_find(&self->cache, &name);
		VF_ENSURES((user != NULL) == model[i].set, "users: exactly the users created and not dropped");
		if (! user)
			continue;
		n++;
		VF_ENSURES(str_is(&user->config->secret, secrets[model[i].secret], strlen(secrets[model[i].secret])), "users: the secret set last");
	}
	VF_ENSURES(self->cache.list_count == n, "users: each once");
}
#endif

VF_PROOF(history)
{
	vf_init();
	VF_REACH("history");
#ifndef VF_CBMC
	memset(model, 0, sizeof(model));
	memset(seen, 0, sizeof(seen));
	tokens_count = 0;
	memset(&rt, 0, sizeof(rt));
	iface.save_state = save;
	rt.iface   = &iface;
	am_runtime = &rt;
	state_init(&rt.state);
	state_prepare(&rt.state);
	vf_task.timer_mgr.time_cached = true;
	set_time(1700000000 + vf_range(0, 1000));
	user_mgr_init(&mgr);
	for (int f = 0; f < FRONT; f++)
		auth_init(&fronts[f]);

	int steps = vf_range(1, 60);
	for (int s = 0; s < steps; s++)
	{
		switch (vf_range(0, 11)) {
		case 0:
		case 1:
		{
			int u = vf_range(0, USERS - 1), sec = vf_range(0, SECRETS - 1);
			bool exists = vf_bool();
			int  saved = saves;
			UserConfig* config = user_config_allocate();
			set_config(config, u, sec);
			bool raised = error_catch( user_mgr_create(&mgr, config, exists) );
			user_config_free(config);
			VF_ENSURES(raised == (model[u].set && ! exists), "users: a user is created once");
			VF_ENSURES((saves > saved) == ! model[u].set, "users: every change is saved");
			if (! model[u].set)
				model[u] = (ModelUser){ true, sec };
			break;
		}
		case 2:
		{
			int u = vf_range(0, USERS - 1);
			bool exists = vf_bool();
			int  saved = saves;
			auto name = str_c(names[u]);
			bool raised = error_catch( user_mgr_drop(&mgr, &name, exists) );
			VF_ENSURES(raised == (! model[u].set && ! exists), "users: only a user that exists is dropped");
			VF_ENSURES((saves > saved) == model[u].set, "users: every change is saved");
			model[u].set = false;
			break;
		}
		case 3:
		{
			int u = vf_range(0, USERS - 1), sec = vf_range(0, SECRETS - 1);
			int saved = saves;
			UserConfig* config = user_config_allocate();
			set_config(config, u, sec);
			bool raised = error_catch( user_mgr_alter(&mgr, config) );
			user_config_free(config);
			VF_ENSURES(raised == ! model[u].set, "users: only a user that exists is altered");
			VF_ENSURES((saves > saved) == model[u].set, "users: every change is saved");
			if (model[u].set)
				model[u].secret = sec;
			break;
		}
		case 4:
		case 5:
		{
			int f = vf_range(0, FRONT - 1);
			auth_sync(&fronts[f], &mgr.cache);
			memcpy(seen[f], model, sizeof(model));
			break;
		}
		case 6:
			set_time(now + vf_range(0, 30));
			break;
		case 7:
		case 8:
			if (tokens_count < TOKENS)
			{
				issue(&tokens[tokens_count]);
				tokens_count++;
				try_token(vf_range(0, FRONT - 1), &tokens[tokens_count - 1]);
			}
			break;
		case 9:
		{
			Token t;
			forge(&t);
			try_token(vf_range(0, FRONT - 1), &t);
			break;
		}
		case 10:
			if (tokens_count)
				for (int i = 0; i < tokens_count; i++)
					try_token(i % FRONT, &tokens[i]);
			break;
		case 11:
		{
			/* the users after a restart */
			check_users(&mgr);
			UserMgr again;
			user_mgr_init(&again);
			user_mgr_open(&again);
			check_users(&again);
			user_mgr_free(&again);
			break;
		}
		}
	}
	for (int f = 0; f < FRONT; f++)
	{
		for (int i = 0; i < tokens_count; i++)
			try_token(f, &tokens[i]);
		auth_free(&fronts[f]);
	}
	user_mgr_free(&mgr);
	state_free(&rt.state);
#endif
}
