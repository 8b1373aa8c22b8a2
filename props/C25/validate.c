//@proof validate unwind=33 timeout=300 covers=jwt_decode_validate
//@proof split kind=bounded unwind=18 timeout=300 bound=tokens_of_at_most_16_bytes covers=jwt_decode
//@flags -DVF_NO_REALLOC
//@assume HMAC computes HMAC-SHA256 of exactly the bytes it is given (OpenSSL)
//@assume base64url_decode appends what the text stands for (C05)
#include <vf.h>
#include <amelie_runtime>
#include <amelie_user.h>
#include <amelie_auth.h>
#include <vf_env.h>
#ifdef VF_CBMC
#include <openssl/hmac.h>
#include <openssl/evp.h>

static uint8_t mac[32];
static uint8_t sent[48];
static int     sent_size;
static char    text[16];
static char    key[4];
static int     key_size, origin_size, hmacs;
static uint8_t data[64];

const EVP_MD* EVP_sha256(void)
{
	static int md;
	return (const EVP_MD*)&md;
}
unsigned char* HMAC(const EVP_MD* md, const void* k, int ks, const unsigned char* d, size_t n, unsigned char* out, unsigned int* out_size)
{
	VF_ENSURES(md == EVP_sha256(), "token: HMAC-SHA256");
	VF_ENSURES(k == (const void*)key && ks == key_size, "token: the secret is the key of the signature");
	VF_ENSURES(d == (const unsigned char*)text && n == (size_t)origin_size, "token: header and payload are signed as written");
	hmacs++;
	for (int i = 0; i < 32; i++)
		out[i] = mac[i];
	if (out_size)
		*out_size = 32;
	return out;
}
int CRYPTO_memcmp(const void* a, const void* b, size_t n)
{
	return memcmp(a, b, n);
}
void base64url_decode(Buf* self, Str* str)
{
	VF_ENSURES(str->pos == text + origin_size + 1 && str->end == text + 16, "token: the digest is what follows the payload");
	VF_ENSURES(buf_size(self) + sent_size <= 64, "VF-CAPACITY: data");
	for (int i = 0; i < 48; i++)
		if (i < sent_size)
			self->position[i] = sent[i];
	self->position += sent_size;
}
#include "auth/jwt_decode.c"
void json_init(Json* self) { (void)self; }
void json_free(Json* self) { (void)self; }
void json_reset(Json* self) { (void)self; }
void json_parse(Json* self, Str* t, Buf* b) { (void)self; (void)t; (void)b; }
#endif

VF_PROOF(validate)
{
	vf_init();
	VF_REACH("digest");
#ifdef VF_CBMC
	for (int i = 0; i < 32; i++)
		mac[i] = vf_u8();
	for (int i = 0; i < 48; i++)
		sent[i] = vf_u8();
	sent_size   = vf_range(0, 48);
	origin_size = vf_range(0, 14);
	key_size    = vf_range(0, 4);
	JwtDecode self;
	memset(&self, 0, sizeof(self));
	self.data.start    = data;
	self.data.position = data + vf_range(0, 16);
	self.data.end      = data + 64;
	str_set(&self.digest_origin, text, origin_size);
	str_set(&self.digest, text + origin_size + 1, 15 - origin_size);
	Str secret;
	str_set(&secret, key, key_size);
	bool same = sent_size == 32;
	for (int i = 0; i < 32; i++)
		if (sent[i] != mac[i])
			same = false;
	vf_may_throw = ! same || key_size == 0;
	jwt_decode_validate(&self, &secret);
	VF_ENSURES(same && key_size > 0 && hmacs == 1, "token: validated exactly when all 32 bytes are the signature by the secret");
	VF_REACH("valid");
#endif
}

VF_PROOF(split)
{
	vf_init();
	VF_REACH("text");
#ifdef VF_CBMC
	for (int i = 0; i < 16; i++)
		text[i] = vf_u8();
	int  size = vf_range(0, 16);
	Str  token;
	str_set(&token, text, size);
	/* <Bearer> <header.payload.digest> */
	static const char bearer[] = "Bearer ";
	bool ok = size > 7;
	for (int i = 0; i < 7; i++)
		if (i >= size || text[i] != bearer[i])
			ok = false;
	int a = -1, b = -1;
	for (int i = 7; i < 16; i++)
		if (i < size && text[i] == '.')
		{
			if (a == -1)
				a = i;
			else
			if (b == -1)
				b = i;
		}
	if (a <= 7 || b <= a + 1 || b == size - 1)
		ok = false;
	vf_may_throw = ! ok;
	JwtDecode self;
	memset(&self, 0, sizeof(self));
	jwt_decode(&self, &token);
	VF_ENSURES(ok, "token: has the form Bearer header.payload.digest");
	VF_ENSURES(self.header.pos == text + 7 && self.header.end == text + a, "token: header");
	VF_ENSURES(self.payload.pos == text + a + 1 && self.payload.end == text + b, "token: payload");
	VF_ENSURES(self.digest.pos == text + b + 1 && self.digest.end == text + size, "token: digest");
	VF_ENSURES(self.digest_origin.pos == text + 7 && self.digest_origin.end == text + b, "token: what is signed is all before the digest");
	VF_REACH("parts");
#endif
}
