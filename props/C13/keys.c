//@proof int32 unwind=4 unwindfn=vf_hash_mix:9 covers=compare,row_hash,compare_int32
//@proof int64 unwind=4 unwindfn=vf_hash_mix:9 covers=compare,row_hash,compare_int64
//@proof uuid unwind=4 unwindfn=vf_hash_mix:17 covers=compare,row_hash,uuid_compare,compare_uint64
//@proof string kind=bounded unwind=6 bound=strings_up_to_4_bytes covers=compare,row_hash,json_compare_string,str_compare_fn
//@proof int32_int64 unwind=4 unwindfn=vf_hash_mix:9 covers=compare,row_hash
//@proof int64_uuid unwind=4 unwindfn=vf_hash_mix:17 covers=compare,row_hash
//@proof uuid_int32 unwind=4 unwindfn=vf_hash_mix:17 covers=compare,row_hash
//@proof string_int32 kind=bounded unwind=6 bound=strings_up_to_4_bytes covers=compare,row_hash
//@proof int64_string kind=bounded unwind=6 unwindfn=vf_hash_mix:9 bound=strings_up_to_4_bytes covers=compare,row_hash
//@proof string_string kind=bounded unwind=6 timeout=240 bound=strings_up_to_3_bytes covers=compare,row_hash
//@proof str_order kind=bounded unwind=9 bound=strings_up_to_8_bytes covers=str_compare_fn
//@proof str_equal kind=bounded unwind=9 bound=strings_up_to_8_bytes covers=str_is,str_compare,str_is_case,str_compare_case,str_is_prefix
//@proof long_strings kind=native fuzz=60000 bound=strings_up_to_300_bytes covers=compare,row_hash,hash_murmur3_32,str_compare_fn
//@proof murmur kind=bounded unwind=21 bound=keys_up_to_20_bytes covers=hash_murmur3_32
//@rewrite (uint16_t columns;\s+uint8_t data\[)\] ==> \g<1>88]
//@rewrite sizeof\(Row\) ==> __builtin_offsetof(Row, data)
#include <vf.h>
#include <amelie_runtime>
/*
 * modular step: row_hash is checked against the contract of the byte hash
 * (a function of the bytes, the length and the seed and nothing else; the
 * murmur proof below).
 */
static inline uint32_t vf_hash_mix(const uint8_t* key, size_t len, uint32_t seed)
{
	uint32_t h = seed ^ (uint32_t)len;
	for (size_t i = 0; i < len; i++)
		h = ((h << 5) | (h >> 27)) ^ key[i];
	return h;
}
#ifdef VF_CBMC
#define hash_murmur3_32 vf_hash_mix
#include <amelie_row.h>
#undef hash_murmur3_32
#else
#include <amelie_row.h>
#endif
#include <vf_env.h>

#define STR 5
typedef struct { int64_t i; uint64_t u[2]; char s[STR]; int s_len; } Val;
enum { T32, T64, TU, TS };

static Column cols[3];
static Key    key1, key2;
static Keys   keys;
static bool   fixed;
static int    key_types[2], key_cols[2], key_count;

static inline void schema(int t1, int t2)
{
	static const int sizes[] = { 4, 8, 16, 0 };
	key_count = t2 < 0 ? 1 : 2;
	key_types[0] = t1;
	key_types[1] = t2;
	/* keys sit on arbitrary distinct columns, in any order */
	fixed = t2 >= 0;
#ifdef VF_NATIVE
	fixed = false;
#endif
	if (fixed)
	{
		/* two keys: second key on an earlier column than the first */
		key_cols[0] = 1;
		key_cols[1] = 0;
	} else
	{
		key_cols[0] = vf_range(0, 2);
		key_cols[1] = vf_range(0, 2);
		VF_REQUIRES(key_cols[0] != key_cols[1]);
	}
	for (int i = 0; i < 3; i++)
	{
		cols[i].order = i;
		cols[i].type_size = 0;
	}
	list_init(&keys.list);
	key1.column = &cols[key_cols[0]];
	key1.column->type_size = sizes[t1];
	list_init(&key1.link);
	list_append(&keys.list, &key1.link);
	if (t2 >= 0)
	{
		key2.column = &cols[key_cols[1]];
		key2.column->type_size = sizes[t2];
		list_init(&key2.link);
		list_append(&keys.list, &key2.link);
	}
}

static inline void val_any(Val* v, int type, int max)
{
	switch (type) {
	case T32: v->i = vf_i32(); break;
	case T64: v->i = vf_i64(); break;
	case TU:  v->u[0] = vf_u64(); v->u[1] = vf_u64(); break;
	case TS:
		v->s_len = vf_range(0, max);
		for (int i = 0; i < STR - 1; i++)
			v->s[i] = vf_u8();
		break;
	}
}

/* the meaning of the order: numbers by value, uuids as 128 bit numbers,
 * strings byte by byte (unsigned), a proper prefix first */
static inline int val_cmp(Val* a, Val* b, int type)
{
	switch (type) {
	case T32: case T64:
		return a->i < b->i ? -1 : a->i > b->i;
	case TU:
		if (a->u[0] != b->u[0])
			return a->u[0] < b->u[0] ? -1 : 1;
		return a->u[1] < b->u[1] ? -1 : a->u[1] > b->u[1];
	}
	int rc = 0;
	for (int i = 0; i < STR - 1; i++)
	{
		if (rc == 0 && i < a->s_len && i < b->s_len && a->s[i] != b->s[i])
			rc = (uint8_t)a->s[i] < (uint8_t)b->s[i] ? -1 : 1;
	}
	return rc ? rc : a->s_len < b->s_len ? -1 : a->s_len > b->s_len;
}

static inline uint8_t* val_put(Val* v, int type, uint8_t* pos)
{
	switch (type) {
	case T32: *(int32_t*)pos = v->i; return pos + 4;
	case T64: *(int64_t*)pos = v->i; return pos + 8;
	case TU:  ((Uuid*)pos)->a = v->u[0]; ((Uuid*)pos)->b = v->u[1]; return pos + 16;
	}
	Str str;
	str_set(&str, v->s, v->s_len);
	json_write_string(&pos, &str);
	return pos;
}

/* a row of the schema: keys at any place, the other column holds anything */
static inline void row_make(Row* row, Val* v, int factor)
{
	row_init(row, 3, factor, 84);
	uint8_t* pos = row_data(row, 3);
	bool first_last = !fixed && key_count == 2 && vf_bool();
	for (int n = 0; n < key_count; n++)
	{
		int i = first_last ? 1 - n : n;
		row_set(row, key_cols[i], pos - (uint8_t*)row);
		pos = val_put(&v[i], key_types[i], pos);
	}
	int rest = 3 - key_cols[0] - key_cols[1];
	row_set(row, rest, pos - (uint8_t*)row);
	*pos = vf_u8();
	if (key_count == 1)
		row_set_null(row, key_cols[1]);
}

static inline void contract(int t1, int t2, int max)
{
	vf_init();
	schema(t1, t2);
#ifdef VF_CBMC
	static Row ra, rb;
	Row *a = &ra, *b = &rb;
#else
	static uint8_t sa[96], sb[96];
	Row *a = (Row*)sa, *b = (Row*)sb;
#endif
	Val va[2], vb[2];
	for (int i = 0; i < key_count; i++)
	{
		val_any(&va[i], key_types[i], max);
		if (vf_bool())
			vb[i] = va[i];
		else
			val_any(&vb[i], key_types[i], max);
	}
	row_make(a, va, 0);
	row_make(b, vb, fixed ? 1 : vf_bool() ? 0 : 1);

	int want = val_cmp(&va[0], &vb[0], t1);
	if (want == 0 && t2 >= 0)
		want = val_cmp(&va[1], &vb[1], t2);
	int rc = compare(&keys, a, b);
	VF_REACH("compare");
	VF_ENSURES((rc > 0) - (rc < 0) == want, "key order: sign of compare is the order of the first key that differs");
	if (want == 0)
	{
		VF_REACH("equal keys");
		VF_ENSURES(row_hash(a, &keys) == row_hash(b, &keys), "key hash: rows with equal keys hash equally, whatever the other columns hold");
	}
}
VF_PROOF(int32)        { contract(T32, -1, 0); }
VF_PROOF(int64)        { contract(T64, -1, 0); }
VF_PROOF(uuid)         { contract(TU, -1, 0); }
VF_PROOF(string)       { contract(TS, -1, 4); }
VF_PROOF(int32_int64)  { contract(T32, T64, 0); }
VF_PROOF(int64_uuid)   { contract(T64, TU, 0); }
VF_PROOF(uuid_int32)   { contract(TU, T32, 0); }
VF_PROOF(string_int32) { contract(TS, T32, 4); }
VF_PROOF(int64_string) { contract(T64, TS, 4); }
VF_PROOF(string_string){ contract(TS, TS, 3); }

static inline void str_any(char* s, int* len, int max)
{
	*len = vf_range(0, max);
	for (int i = 0; i < max; i++)
		s[i] = vf_u8();
}
static inline int bytes_cmp(const char* a, int la, const char* b, int lb, int max)
{
	int rc = 0;
	for (int i = 0; i < max; i++)
		if (rc == 0 && i < la && i < lb && a[i] != b[i])
			rc = (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1;
	return rc ? rc : la < lb ? -1 : la > lb;
}
VF_PROOF(str_order)
{
	vf_init();
	char a[8], b[8];
	int la, lb;
	str_any(a, &la, 8);
	str_any(b, &lb, 8);
	Str sa, sb;
	str_set(&sa, a, la);
	str_set(&sb, b, lb);
	int rc = str_compare_fn(&sa, &sb);
	VF_REACH("string order");
	VF_ENSURES((rc > 0) - (rc < 0) == bytes_cmp(a, la, b, lb, 8), "string order: bytewise, shorter prefix first");
}
VF_PROOF(str_equal)
{
	vf_init();
	char a[8], b[8];
	int la, lb;
	str_any(a, &la, 8);
	str_any(b, &lb, 8);
	/* names hold no zero byte */
	for (int i = 0; i < 8; i++)
		VF_REQUIRES(a[i] && b[i]);
	if (vf_bool())
		for (int i = 0; i < 8; i++)
			b[i] = (a[i] >= 'a' && a[i] <= 'z' && vf_bool()) ? a[i] - 32 : a[i];
	Str sa, sb;
	str_set(&sa, a, la);
	str_set(&sb, b, lb);
	bool eq = la == lb, eqi = la == lb, pre = la >= lb;
	for (int i = 0; i < 8; i++)
	{
		unsigned char x = a[i], y = b[i];
		unsigned char lx = x >= 'A' && x <= 'Z' ? x + 32 : x, ly = y >= 'A' && y <= 'Z' ? y + 32 : y;
		if (i < la && i < lb && x != y) eq = pre = false;
		if (i < la && i < lb && lx != ly) eqi = false;
	}
	VF_REACH("string equality");
	VF_ENSURES(str_compare(&sa, &sb) == eq, "string equality: same bytes");
	VF_ENSURES(str_compare_case(&sa, &sb) == eqi, "string equality without case");
	VF_ENSURES(str_compare_prefix(&sa, &sb) == pre, "string prefix");
}

VF_PROOF(murmur)
{
	vf_init();
	/* exactly the bytes of the key are read, from any alignment */
	int n = vf_range(0, 20);
	uint8_t* a = malloc(n);
	VF_REQUIRES(a != NULL);
	for (int i = 0; i < 20; i++)
		if (i < n)
			a[i] = vf_u8();
	uint32_t seed = vf_u32();
	volatile uint32_t h = hash_murmur3_32(a, n, seed);
	VF_REACH("murmur");
#ifdef VF_NATIVE
	uint8_t b[24];
	int at = vf_range(0, 3);
	memcpy(b + at, a, n);
	VF_ENSURES(h == hash_murmur3_32(b + at, n, seed), "byte hash: a function of the bytes only");
	free(a);
#endif
}

VF_PROOF(long_strings)
{
#ifdef VF_NATIVE
	vf_init();
	schema(TS, -1);
	static uint8_t sa[1024], sb[1024];
	char s[2][301];
	int  l[2];
	for (int i = 0; i < 300; i++)
		s[0][i] = s[1][i] = vf_u64();
	l[0] = vf_range(0, 300);
	l[1] = vf_bool() ? l[0] : (int)vf_range(0, 300);
	if (vf_bool())
		s[1][vf_range(0, 299)] ^= vf_u64();
	Row* r[2] = { (Row*)sa, (Row*)sb };
	for (int i = 0; i < 2; i++)
	{
		row_init(r[i], 3, 1, 1000);
		uint8_t* pos = row_data(r[i], 3) + vf_range(0, 8);
		row_set(r[i], key_cols[0], pos - (uint8_t*)r[i]);
		Str str;
		str_set(&str, s[i], l[i]);
		json_write_string(&pos, &str);
	}
	int rc = compare(&keys, r[0], r[1]);
	int want = bytes_cmp(s[0], l[0], s[1], l[1], 300);
	VF_ENSURES((rc > 0) - (rc < 0) == want, "key order: long strings compare bytewise");
	if (! want)
		VF_ENSURES(row_hash(r[0], &keys) == row_hash(r[1], &keys), "key hash: equal long strings hash equally");
	VF_REACH("long strings");
#endif
}
