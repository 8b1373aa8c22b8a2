//@proof integer unwind=17 covers=json_size_integer,json_write_integer,json_read_integer,json_is_integer,json_size_of,json_read_integer_at,encode_integer
//@proof real unwind=17 covers=json_size_real,json_write_real,json_read_real,json_is_real,json_read_real_at
//@proof simple unwind=17 covers=json_write_bool,json_read_bool,json_write_null,json_read_null,json_write_obj,json_read_obj,json_write_obj_end,json_read_obj_end,json_write_array,json_read_array,json_write_array_end,json_read_array_end
//@proof string_header unwind=17 covers=json_write_raw,json_read_raw,json_size_string
//@proof string kind=bounded unwind=4 timeout=200 bound=strings_of_at_most_40_bytes_(headers:_any_size,_see_string_header) covers=json_write_string,json_read_string,json_write_string_cat
//@proof string_long kind=native fuzz=600 bound=seeded_random_strings_of_at_most_70000_bytes covers=json_write_string,json_read_string,json_write_string_cat,encode_string,encode_target,encode_raw
//@proof reader_rejects unwind=17 covers=json_read_integer,json_read_real,json_read_bool,json_read_null,json_read_obj,json_read_array,json_read_raw
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>

/*
 * contract pair for every scalar: after write(pos, v) the cursor moved by
 * exactly size(v), bytes behind it are untouched, is_T() holds, exactly one
 * type test holds, and read() returns v and moves by the same amount.
 */
static int kinds(uint8_t* d)
{
	return json_is_integer(d) + json_is_real(d) + json_is_bool(d) + json_is_null(d) +
	       json_is_string(d) + json_is_obj(d) + json_is_array(d) +
	       json_is_obj_end(d) + json_is_array_end(d);
}

VF_PROOF(integer)
{
	vf_init();
	uint8_t buf[16];
	for (int i = 0; i < 16; i++)
		buf[i] = 0xEE;
	int64_t v = vf_i64();
	uint8_t* pos = buf;
	int size = json_size_integer(v);
	json_write_integer(&pos, v);
	VF_REACH("integer");
	VF_ENSURES(pos == buf + size, "integer: written size equals the declared size");
	VF_ENSURES(size >= 1 && size <= 9, "integer: size range");
	for (int i = 0; i < 16; i++)
		VF_ENSURES(i < size || buf[i] == 0xEE, "integer: frame");
	VF_ENSURES(json_is_integer(buf) && kinds(buf) == 1, "integer: type");
	uint8_t* r = buf;
	int64_t out = ~v;
	json_read_integer(&r, &out);
	VF_ENSURES(out == v, "integer: value read is the value written");
	VF_ENSURES(r == pos, "integer: reader consumes what the writer produced");
	VF_ENSURES(json_read_integer_at(buf) == v, "integer: read_at");
}

VF_PROOF(real)
{
	vf_init();
	union { uint64_t u; double d; } v, out;
	v.u = vf_u64();
	uint8_t buf[16];
	for (int i = 0; i < 16; i++)
		buf[i] = 0xEE;
	uint8_t* pos = buf;
	int size = json_size_real(v.d);
	json_write_real(&pos, v.d);
	VF_REACH("real");
	VF_ENSURES(pos == buf + size, "real: written size equals the declared size");
	for (int i = 0; i < 16; i++)
		VF_ENSURES(i < size || buf[i] == 0xEE, "real: frame");
	VF_ENSURES(json_is_real(buf) && kinds(buf) == 1, "real: type");
	uint8_t* r = buf;
	out.u = 1;
	json_read_real(&r, &out.d);
	VF_ENSURES(r == pos, "real: reader consumes what the writer produced");
	if (v.d == v.d)
		VF_ENSURES(out.d == v.d, "real: value read is the value written");
	else
		VF_ENSURES(out.d != out.d, "real: NaN stays NaN");
}

VF_PROOF(simple)
{
	vf_init();
	uint8_t buf[12];
	for (int i = 0; i < 12; i++)
		buf[i] = 0xEE;
	bool b = vf_bool(), c = vf_bool();
	uint8_t* pos = buf;
	json_write_bool(&pos, b);
	json_write_null(&pos);
	json_write_obj(&pos);
	json_write_obj_end(&pos);
	json_write_array(&pos);
	json_write_array_end(&pos);
	json_write_bool(&pos, c);
	VF_REACH("simple");
	VF_ENSURES(pos == buf + json_size_bool() * 2 + json_size_null() + json_size_obj() + json_size_obj_end() +
	           json_size_array() + json_size_array_end(), "simple: sizes");
	VF_ENSURES(buf[7] == 0xEE, "simple: frame");
	uint8_t* r = buf;
	bool x = !b, y = !c;
	VF_ENSURES(json_is_bool(r) && kinds(r) == 1, "bool: type");
	VF_ENSURES(json_read_bool_at(r) == b, "bool: read_at");
	json_read_bool(&r, &x);
	VF_ENSURES(x == b, "bool: value");
	VF_ENSURES(json_is_null(r) && kinds(r) == 1, "null: type");
	json_read_null(&r);
	VF_ENSURES(json_is_obj(r) && kinds(r) == 1, "obj: type");
	VF_ENSURES(!json_read_obj_end(&r) && !json_read_array_end(&r), "obj start is no end");
	json_read_obj(&r);
	VF_ENSURES(json_is_obj_end(r) && kinds(r) == 1, "obj end: type");
	VF_ENSURES(!json_read_array_end(&r), "obj end is no array end");
	VF_ENSURES(json_read_obj_end(&r), "obj end");
	VF_ENSURES(json_is_array(r) && kinds(r) == 1, "array: type");
	json_read_array(&r);
	VF_ENSURES(json_is_array_end(r) && kinds(r) == 1, "array end: type");
	VF_ENSURES(!json_read_obj_end(&r), "array end is no obj end");
	VF_ENSURES(json_read_array_end(&r), "array end");
	json_read_bool(&r, &y);
	VF_ENSURES(y == c, "bool: second value");
	VF_ENSURES(r == pos, "simple: reader consumes what the writer produced");
}

VF_PROOF(string_header)
{
	vf_init();
	/* payload not copied (value NULL): header for every size up to 2^31-1-9 */
	uint8_t buf[16];
	for (int i = 0; i < 16; i++)
		buf[i] = 0xEE;
	int size = vf_srange(0, INT32_MAX - 16);
	uint8_t* pos = buf;
	json_write_raw(&pos, NULL, size);
	VF_REACH("string header");
	int hdr = json_size_string(size) - size;
	VF_ENSURES(pos == buf + hdr, "string: header size as declared");
	VF_ENSURES(json_is_string(buf) && kinds(buf) == 1, "string: type");
	for (int i = 0; i < 16; i++)
		VF_ENSURES(i < hdr || buf[i] == 0xEE, "string: frame");
	uint8_t* r = buf;
	char* value = NULL;
	int n = -1;
	json_read_raw(&r, &value, &n);
	VF_ENSURES(n == size, "string: size read is the size written");
	VF_ENSURES(value == (char*)buf + hdr, "string: payload follows the header");
	VF_ENSURES((uintptr_t)r - (uintptr_t)buf == (uintptr_t)hdr + size, "string: reader skips the payload");
	/* fixed width header */
	uint8_t fix[16];
	uint8_t* q = fix;
	json_write_string32(&q, size);
	VF_ENSURES(q == fix + json_size_string32(), "string32: size");
	r = fix;
	n = -1;
	json_read_raw(&r, &value, &n);
	VF_ENSURES(n == size && value == (char*)q, "string32: read back");
}

#define SMAX 40
VF_PROOF(string)
{
	vf_init();
	char src[SMAX];
	uint8_t buf[SMAX + 16];
	int k = vf_range(0, SMAX - 1);
	char ck = vf_u8();
	int size = vf_range(0, SMAX);
	int cut = vf_range(0, SMAX);
	VF_REQUIRES(cut <= size);
	memset(src, 0, sizeof(src));
	src[k] = ck;
	buf[SMAX + 15] = 0xEE;
	uint8_t* pos = buf;
	Str s, o;
	str_set(&s, src, size);
	bool cat = vf_bool();
	if (cat)
		json_write_string_cat(&pos, src, src + cut, cut, size - cut);
	else
		json_write_string(&pos, &s);
	VF_REACH("string");
	VF_ENSURES(pos == buf + json_size_string(size), "string: written size equals the declared size");
	uint8_t* r = buf;
	json_read_string(&r, &o);
	VF_ENSURES(str_size(&o) == size, "string: size");
	VF_ENSURES(r == pos, "string: reader consumes what the writer produced");
	int j = vf_range(0, SMAX - 1);
	if (j < size)
		VF_ENSURES(o.pos[j] == src[j], "string: content");
}

VF_PROOF(string_long)
{
	vf_init();
	static char src[70001];
	static uint8_t out[210300];
	int size = vf_bool() ? vf_range(0, 70000) : vf_range(0, 300);
	int cut = vf_range(0, 70000);
	VF_REQUIRES(cut <= size);
	uint64_t x = vf_u64();
	for (int i = 0; i < size; i++) {
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		src[i] = x >> 56;
	}
	Str s, o;
	str_set(&s, src, size);
	Buf buf;
	buf_init(&buf);
	encode_string(&buf, &s);
	int at1 = buf_size(&buf);
	VF_ENSURES(at1 == json_size_string(size), "encode_string: size");
	buf_reserve(&buf, size + 16);
	json_write_string_cat(&buf.position, src, src + cut, cut, size - cut);
	int at2 = buf_size(&buf);
	VF_ENSURES(at2 == 2 * at1, "string_cat: size");
	Str a, b;
	str_set(&a, src, cut);
	str_set(&b, src + cut, size - cut);
	encode_target(&buf, &a, &b);
	VF_REACH("long");
	uint8_t* r = buf.start;
	json_read_string(&r, &o);
	VF_ENSURES(str_compare(&o, &s) && r == buf.start + at1, "string: read back");
	json_read_string(&r, &o);
	VF_ENSURES(str_compare(&o, &s) && r == buf.start + at2, "string_cat: read back");
	json_read_string(&r, &o);
	VF_ENSURES(str_size(&o) == size + 1 && o.pos[cut] == '.' && !memcmp(o.pos, src, cut) &&
	           !memcmp(o.pos + cut + 1, src + cut, size - cut) && r == buf.position, "target: db.name");
	buf_free_memory(&buf);
}

/* a reader never accepts a value of another type */
VF_PROOF(reader_rejects)
{
	vf_init();
	uint8_t buf[16];
	for (int i = 0; i < 16; i++)
		buf[i] = vf_u8();
	uint8_t* r = buf;
	int what = vf_range(0, 6);
	int64_t i;
	double d;
	bool b;
	char* s;
	int n;
	VF_MAY_THROW(true);
	switch (what) {
	case 0: json_read_integer(&r, &i); VF_ENSURES(json_is_integer(buf), "read_integer accepts integers only"); break;
	case 1: json_read_real(&r, &d); VF_ENSURES(json_is_real(buf), "read_real accepts reals only"); break;
	case 2: json_read_bool(&r, &b); VF_ENSURES(json_is_bool(buf), "read_bool accepts bools only"); break;
	case 3: json_read_null(&r); VF_ENSURES(json_is_null(buf), "read_null accepts null only"); break;
	case 4: json_read_obj(&r); VF_ENSURES(json_is_obj(buf), "read_obj accepts objects only"); break;
	case 5: json_read_array(&r); VF_ENSURES(json_is_array(buf), "read_array accepts arrays only"); break;
	case 6: json_read_raw(&r, &s, &n); VF_ENSURES(json_is_string(buf), "read_raw accepts strings only"); break;
	}
	VF_REACH("accepted");
}
