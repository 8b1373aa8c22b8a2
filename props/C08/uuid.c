//@proof parse kind=proof unwind=42 timeout=300 covers=uuid_set_nothrow
//@proof set kind=proof unwind=42 timeout=200 covers=uuid_set
//@proof order kind=proof covers=uuid_compare,uuid_is,uuid_init,uuid_empty
//@proof text kind=native fuzz=200000 covers=uuid_get,uuid_get_short,uuid_set,uuid_set_nothrow
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "amelie/runtime/lib/uuid.c"

static int hex(uint8_t c)
{
	if (c >= '0' && c <= '9')
		return c - '0';
	if (c >= 'a' && c <= 'f')
		return c - 'a' + 10;
	if (c >= 'A' && c <= 'F')
		return c - 'A' + 10;
	return -1;
}

/* 8-4-4-4-12 hexadecimal digits */
static bool well_formed(const char* t, int n)
{
	bool ok = n == 36;
	for (int i = 0; i < 36; i++)
	{
		if (i == 8 || i == 13 || i == 18 || i == 23)
			ok = ok && t[i] == '-';
		else
			ok = ok && hex(t[i]) >= 0;
	}
	return ok;
}

/* digits of the text, in order, from an uuid: the four fields are stored
 * as native integers */
static int digit(Uuid* self, int i)
{
	if (i < 8)
		return (uint32_t)self->a >> (28 - i * 4) & 15;
	if (i < 12)
		return (self->a >> 32 & 0xFFFF) >> (12 - (i - 8) * 4) & 15;
	if (i < 16)
		return (self->a >> 48 & 0xFFFF) >> (12 - (i - 12) * 4) & 15;
	if (i < 20)
		return (self->b & 0xFFFF) >> (12 - (i - 16) * 4) & 15;
	if (i < 24)
		return (self->b >> 16 & 0xFFFF) >> (12 - (i - 20) * 4) & 15;
	return (self->b >> 32) >> (28 - (i - 24) * 4) & 15;
}

static char t[41];

static int make(void)
{
	int n = vf_range(0, 40);
	for (int i = 0; i < 40; i++)
	{
		t[i] = (char)vf_u8();
		VF_NATIVE_ONLY(if (vf_range(0, 63)) t[i] = i == 8 || i == 13 || i == 18 || i == 23 ? '-' : "0123456789abcdefABCDEF"[vf_range(0, 21)];)
	}
	VF_NATIVE_ONLY(if (vf_range(0, 3)) n = 36;)
	return n;
}

static void check(Uuid* uuid)
{
	for (int i = 0, d = 0; i < 36; i++)
	{
		if (i == 8 || i == 13 || i == 18 || i == 23)
			continue;
		VF_ENSURES(digit(uuid, d) == hex(t[i]), "uuid_set: the digits written");
		d++;
	}
}

VF_PROOF(parse)
{
	vf_init();
	int n = make();
	Str s;
	str_set(&s, t, n);
	bool ok = well_formed(t, n);
	VF_MAY_THROW(false);
	Uuid uuid;
	uuid_init(&uuid);
	int rc = uuid_set_nothrow(&uuid, &s);
	VF_ENSURES((rc == 0) == ok, "uuid_set_nothrow: accepts exactly well-formed texts");
	VF_ENSURES(rc == 0 || rc == -1, "uuid_set_nothrow: result");
	if (rc != 0)
		return;
	check(&uuid);
	VF_REACH("accepted");
}

VF_PROOF(set)
{
	vf_init();
	int n = make();
	Str s;
	str_set(&s, t, n);
	bool ok = well_formed(t, n);
	VF_MAY_THROW(! ok);
	Uuid uuid;
	uuid_set(&uuid, &s);
	VF_ENSURES(ok, "uuid_set: refuses malformed texts");
	check(&uuid);
	VF_REACH("accepted");
}

VF_PROOF(order)
{
	vf_init();
	VF_MAY_THROW(false);
	Uuid a = { .a = vf_u64(), .b = vf_u64() }, b = { .a = vf_u64(), .b = vf_u64() }, c = { .a = vf_u64(), .b = vf_u64() };
	VF_NATIVE_ONLY(if (vf_bool()) b.a = a.a; if (vf_bool()) b.b = a.b; if (vf_bool()) c.a = b.a;)
	int ab = uuid_compare(&a, &b), ba = uuid_compare(&b, &a), bc = uuid_compare(&b, &c), ac = uuid_compare(&a, &c);
	bool same = a.a == b.a && a.b == b.b;
	VF_ENSURES((ab == 0) == same && uuid_is(&a, &b) == same, "uuid_compare: equal exactly when the same");
	VF_ENSURES((ab > 0) == (ba < 0) && (ab < 0) == (ba > 0), "uuid_compare: antisymmetric");
	if (ab <= 0 && bc <= 0)
		VF_ENSURES(ac <= 0, "uuid_compare: transitive");
	VF_ENSURES(uuid_empty(&a) == (a.a == 0 && a.b == 0), "uuid_empty");
	uuid_init(&c);
	VF_ENSURES(uuid_empty(&c), "uuid_init");
	VF_REACH("compared");
}

#ifndef VF_CBMC
VF_PROOF(text)
{
	vf_init();
	VF_MAY_THROW(false);
	Uuid a = { .a = vf_u64(), .b = vf_u64() }, b;
	if (vf_bool())
		a.a &= vf_u64() & vf_u64() & vf_u64();
	if (vf_bool())
		a.b &= vf_u64() & vf_u64() & vf_u64();
	char* text = malloc(UUID_SZ);
	uuid_get(&a, text, UUID_SZ);
	VF_ENSURES(strlen(text) == 36, "uuid_get: size");
	for (int i = 0; i < 36; i++)
		VF_ENSURES(text[i] == (i == 8 || i == 13 || i == 18 || i == 23 ? '-' : "0123456789abcdef"[hex(text[i]) & 15]), "uuid_get: lower case text");
	Str s;
	str_set(&s, text, 36);
	uuid_set(&b, &s);
	VF_ENSURES(a.a == b.a && a.b == b.b, "uuid: the text names the uuid");
	memcpy(t, text, 37);
	check(&a);
	char* sh = malloc(9);
	uuid_get_short(&a, sh, 9);
	VF_ENSURES(! memcmp(sh, text, 8) && sh[8] == 0, "uuid_get_short: the first eight digits");
	free(text);
	free(sh);
	VF_REACH("text");
}
#endif
