//@proof decode kind=native fuzz=60000 bound=seeded_random_objects_of_at_most_6_keys,_every_field_type covers=decode_obj
//@proof field kind=bounded unwind=12 timeout=300 unwindfn=decode_obj:3,json_skip:2,doc_value:2,base64url_decode:1,uuid_set:1 bound=objects_of_one_key,_every_field_type_and_value_kind covers=decode_obj
//@nflags -DDOC_TOKENS=4 -DDOC_SIZE=80 -DDOC_DEPTH=2
//@flags -DVF_NO_REALLOC
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifdef VF_CBMC
#define DOC_TOKENS 1
#define DOC_SIZE 12
#define DOC_DEPTH 1
#endif
#include "doc.h"
#include "amelie/runtime/lib/base64url.c"
#include "amelie/runtime/lib/uuid.c"

static const int types[] =
{
	DECODE_STRING, DECODE_STRING_READ, DECODE_INT, DECODE_BOOL, DECODE_REAL,
	DECODE_NULL, DECODE_ARRAY, DECODE_OBJ, DECODE_DATA
};
#define TYPES 9

/* does a field of this type take a value of this kind */
static bool takes(int type, int kind)
{
	switch (type) {
	case DECODE_STRING:
	case DECODE_STRING_READ: return kind == 4;
	case DECODE_INT:         return kind == 3;
	case DECODE_BOOL:        return kind == 1;
	case DECODE_REAL:        return kind == 2;
	case DECODE_NULL:        return kind == 0;
	case DECODE_ARRAY:       return kind == 7;
	case DECODE_OBJ:         return kind == 5;
	}
	return true;
}

static bool bytes_are(const void* a, const void* b, int size)
{
	for (int i = 0; i < size; i++)
		if (((const char*)a)[i] != ((const char*)b)[i])
			return false;
	return true;
}

/* contract decode_obj for one key "a" and one field */
VF_PROOF(field)
{
	vf_init();
	static Doc v;
#ifdef VF_CBMC
	doc_value(&v, 0, true);
#else
	doc_value(&v, 0, false);
#endif
	static uint8_t data[DOC_SIZE + 4];
	bool named = vf_bool();
	data[0] = JSON_OBJ;
	data[1] = JSON_STRINGV0 + 1;
	data[2] = named ? 'a' : 'b';
	for (int i = 0; i < v.size; i++)
		data[3 + i] = v.data[i];
	data[3 + v.size] = JSON_OBJ_END;

	int      type = types[vf_range(0, TYPES - 1)];
	int64_t  integer = 0;
	bool     boolean = false;
	double   real = 0;
	uint8_t* at = NULL;
	Str      str;
	str_init(&str);
	static uint8_t mem[DOC_SIZE];
	Buf      buf;
	buf_init(&buf);
#ifdef VF_CBMC
	buf.start = buf.position = mem;
	buf.end = mem + sizeof(mem);
#endif
	(void)mem;
	void*    value = NULL;
	switch (type) {
	case DECODE_STRING:
	case DECODE_STRING_READ: value = &str; break;
	case DECODE_INT:         value = &integer; break;
	case DECODE_BOOL:        value = &boolean; break;
	case DECODE_REAL:        value = &real; break;
	case DECODE_ARRAY:
	case DECODE_OBJ:         value = &at; break;
	case DECODE_DATA:        value = &buf; break;
	}
	Decode fields[] =
	{
		{ type, "a", value },
		{ 0,    NULL, NULL },
	};
	int kind = v.tokens[0].kind;
	bool ok = named && takes(type, kind);
	VF_MAY_THROW(! ok);
	uint8_t* pos = data;
	decode_obj(fields, "test", &pos);
	VF_ENSURES(ok, "decode_obj: refuses a missing field and a value of another type");
	VF_ENSURES(pos == data + 4 + v.size, "decode_obj: ends right behind the object");
	VF_REACH("decoded");
	switch (type) {
	case DECODE_STRING:
	case DECODE_STRING_READ:
		VF_ENSURES(str_size(&str) == v.tokens[0].value, "decode_obj: size of the string");
		VF_ENSURES(bytes_are(str_of(&str), data + 3 + v.size - str_size(&str), v.tokens[0].value), "decode_obj: bytes of the string");
		break;
	case DECODE_INT:
		VF_ENSURES(integer == v.tokens[0].value, "decode_obj: the integer");
		break;
	case DECODE_BOOL:
		VF_ENSURES(boolean == v.tokens[0].value, "decode_obj: the boolean");
		break;
	case DECODE_REAL:
		VF_ENSURES(real == v.tokens[0].real, "decode_obj: the real");
		break;
	case DECODE_ARRAY:
	case DECODE_OBJ:
		VF_ENSURES(at == data + 3, "decode_obj: the container");
		break;
	case DECODE_DATA:
		VF_ENSURES(buf_size(&buf) == v.size && bytes_are(buf.start, v.data, v.size), "decode_obj: the value");
		break;
	}
	VF_NATIVE_ONLY(str_free(&str); buf_free_memory(&buf);)
}

/* several fields in any order, with unknown keys in between: the last value of
 * each field, and an error if one is missing */
VF_PROOF(decode)
{
	vf_init();
#ifndef VF_CBMC
	static const char* names[] = { "i", "b", "r", "u", "base", "unknown", "ii", "" };
	Buf buf;
	buf_init(&buf);
	encode_obj(&buf);
	bool    found[5] = {0};
	int64_t want_i = 0;
	bool    want_b = false;
	double  want_r = 0;
	Uuid    want_u;
	memset(&want_u, 0, sizeof(want_u));
	char    want_base[4];
	int     want_base_size = 0;
	int     base_total = 0;
	char    base[64];
	int     keys = vf_range(0, 12);
	bool    bad = false;
	for (int i = 0; i < keys; i++)
	{
		int n = vf_range(0, 7);
		encode_cstr(&buf, names[n]);
		if (n < 5)
			found[n] = true;
		switch (n) {
		case 0:
			want_i = vf_u64() >> vf_range(0, 63);
			encode_integer(&buf, want_i);
			break;
		case 1:
			want_b = vf_bool();
			encode_bool(&buf, want_b);
			break;
		case 2:
			want_r = (double)(int32_t)vf_u64() / 8;
			encode_real(&buf, want_r);
			break;
		case 3:
			want_u.a = vf_u64();
			want_u.b = vf_u64();
			encode_uuid(&buf, &want_u);
			break;
		case 4:
		{
			want_base_size = vf_range(0, 4);
			for (int j = 0; j < want_base_size; j++)
				want_base[j] = vf_u8();
			Buf b;
			buf_init(&b);
			buf_write(&b, want_base, want_base_size);
			encode_base64(&buf, &b);
			memcpy(base + base_total, want_base, want_base_size);
			base_total += want_base_size;
			buf_free_memory(&b);
			break;
		}
		default:
			if (vf_bool())
				encode_null(&buf);
			else
			{
				encode_array(&buf);
				encode_cstr(&buf, "i");
				encode_obj(&buf);
				encode_cstr(&buf, "i");
				encode_integer(&buf, 7);
				encode_obj_end(&buf);
				encode_array_end(&buf);
			}
			break;
		}
	}
	encode_obj_end(&buf);
	for (int i = 0; i < 5; i++)
		if (! found[i])
			bad = true;

	int64_t i = 0;
	bool    b = false;
	double  r = 0;
	Uuid    u;
	Buf     out;
	buf_init(&out);
	Decode fields[] =
	{
		{ DECODE_INT,    "i",    &i   },
		{ DECODE_BOOL,   "b",    &b   },
		{ DECODE_REAL,   "r",    &r   },
		{ DECODE_UUID,   "u",    &u   },
		{ DECODE_BASE64, "base", &out },
		{ 0,             NULL,   NULL },
	};
	VF_REACH("object");
	VF_MAY_THROW(bad);
	uint8_t* pos = buf.start;
	decode_obj(fields, "test", &pos);
	VF_ENSURES(! bad, "decode_obj: refuses a missing field");
	VF_ENSURES(pos == buf.position, "decode_obj: ends right behind the object");
	VF_ENSURES(i == want_i && b == want_b && r == want_r && u.a == want_u.a && u.b == want_u.b, "decode_obj: fields");
	VF_ENSURES(buf_size(&out) == base_total && ! memcmp(out.start, base, base_total), "decode_obj: base64 field");
	buf_free_memory(&out);
	buf_free_memory(&buf);
#else
	VF_REACH("-");
#endif
}
