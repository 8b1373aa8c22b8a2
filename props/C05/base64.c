//@proof encode kind=bounded unwind=12 timeout=200 bound=texts_of_up_to_9_bytes covers=base64_encode,base64url_encode
//@proof decode kind=bounded unwind=11 timeout=200 bound=texts_of_up_to_9_bytes covers=base64_decode,base64url_decode
//@proof back kind=bounded unwind=14 timeout=200 bound=texts_of_up_to_7_bytes covers=base64_encode,base64_decode,base64url_encode,base64url_decode
//@proof large kind=native fuzz=2000 covers=base64_encode,base64_decode,base64url_encode,base64url_decode
//@flags -DVF_NO_REALLOC
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "amelie/runtime/lib/base64.c"
#include "amelie/runtime/lib/base64url.c"

static bool url;

/* a buffer with size bytes left */
static void buf_of(Buf* buf, uint8_t* mem, int size)
{
	buf_init(buf);
#ifndef VF_CBMC
	mem = malloc(size);
#endif
	buf->start = buf->position = mem;
	buf->end = mem + size;
}

/* RFC 4648, tables 1 and 2 */
static int value_of(uint8_t c)
{
	if (c >= 'A' && c <= 'Z')
		return c - 'A';
	if (c >= 'a' && c <= 'z')
		return c - 'a' + 26;
	if (c >= '0' && c <= '9')
		return c - '0' + 52;
	if (c == (url ? '-' : '+'))
		return 62;
	if (c == (url ? '_' : '/'))
		return 63;
	return -1;
}

static void encode(Buf* buf, Str* str)
{
	if (url)
		base64url_encode(buf, str);
	else
		base64_encode(buf, str);
}

static void decode(Buf* buf, Str* str)
{
	if (url)
		base64url_decode(buf, str);
	else
		base64_decode(buf, str);
}

/* bit of the big endian bit string */
static int bit_of(const uint8_t* data, int size, int bit)
{
	return bit / 8 < size ? (data[bit / 8] >> (7 - bit % 8)) & 1 : 0;
}

static void check_encode(const uint8_t* data, int size)
{
	Str str;
	str_set(&str, (char*)data, size);
	Buf buf;
	static uint8_t mem[64];
	buf_of(&buf, mem, 64);
	buf_write(&buf, "x", 1);
	VF_MAY_THROW(false);
	encode(&buf, &str);
	VF_ENSURES(*buf.start == 'x', "base64_encode: appends");
	int chars = (size * 8 + 5) / 6;
	int total = url ? chars : (size + 2) / 3 * 4;
	VF_ENSURES(buf_size(&buf) == total + 1, "base64_encode: size");
	uint8_t* out = buf.start + 1;
#ifdef VF_CBMC
	int i = vf_range(0, 15);
	if (i < total)
#else
	for (int i = 0; i < total; i++)
#endif
	{
		if (i < chars)
		{
			int v = value_of(out[i]);
			VF_ENSURES(v >= 0, "base64_encode: alphabet");
#ifdef VF_CBMC
			int j = vf_range(0, 5);
#else
			for (int j = 0; j < 6; j++)
#endif
			VF_ENSURES(((v >> (5 - j)) & 1) == bit_of(data, size, i * 6 + j), "base64_encode: bits");
		} else
			VF_ENSURES(out[i] == '=', "base64_encode: padding");
	}
	VF_NATIVE_ONLY(free(buf.start);)
}

VF_PROOF(encode)
{
	vf_init();
	url = vf_bool();
	static uint8_t data[9];
	int n = vf_range(0, 9);
	for (int i = 0; i < 9; i++)
		data[i] = vf_u8();
	check_encode(data, n);
	VF_REACH("encoded");
}

/* every text: refused when it has a character outside of the alphabet,
 * otherwise the bytes its characters stand for */
static void check_decode(uint8_t* text, int size)
{
	Str str;
	str_set(&str, (char*)text, size);
	Buf buf;
	static uint8_t mem[64];
	buf_of(&buf, mem, 64);
	buf_write(&buf, "x", 1);

	int chars = 0;
	while (chars < size && value_of(text[chars]) >= 0)
		chars++;
	bool ok = chars == size || (! url && text[chars] == '=');
	VF_MAY_THROW(! ok);
	decode(&buf, &str);
	VF_ENSURES(ok, "base64_decode: refuses characters outside of the alphabet");
	VF_ENSURES(*buf.start == 'x', "base64_decode: appends");
	VF_ENSURES(buf_size(&buf) == chars * 6 / 8 + 1, "base64_decode: size");
	uint8_t* out = buf.start + 1;
	int bits = chars * 6 / 8 * 8;
#ifdef VF_CBMC
	int i = vf_range(0, 63);
	if (i < bits)
#else
	for (int i = 0; i < bits; i++)
#endif
	{
		int v = value_of(text[i / 6]);
		VF_ENSURES(bit_of(out, bits / 8, i) == ((v >> (5 - i % 6)) & 1), "base64_decode: bits");
	}
	VF_NATIVE_ONLY(free(buf.start);)
}

VF_PROOF(decode)
{
	vf_init();
	url = vf_bool();
	static uint8_t text[9];
	int n = vf_range(0, 9);
	for (int i = 0; i < 9; i++)
	{
		text[i] = vf_u8();
		VF_NATIVE_ONLY(if (vf_range(0, 9)) text[i] = base64_encode_table[vf_range(0, 63)];)
	}
	check_decode(text, n);
	VF_REACH("decoded");
}

static void check_back(uint8_t* data, int size)
{
	Str str;
	str_set(&str, (char*)data, size);
	Buf text, back;
	static uint8_t mem_text[64], mem_back[64];
	buf_of(&text, mem_text, 64);
	buf_of(&back, mem_back, 64);
	VF_MAY_THROW(false);
	encode(&text, &str);
	buf_str(&text, &str);
	decode(&back, &str);
	VF_ENSURES(buf_size(&back) == size, "base64: the size comes back");
#ifdef VF_CBMC
	int i = vf_range(0, 15);
	if (i < size)
#else
	for (int i = 0; i < size; i++)
#endif
	VF_ENSURES(back.start[i] == data[i], "base64: the bytes come back");
	VF_NATIVE_ONLY(free(text.start); free(back.start);)
}

VF_PROOF(back)
{
	vf_init();
	url = vf_bool();
	static uint8_t data[7];
	int n = vf_range(0, 7);
	for (int i = 0; i < 7; i++)
		data[i] = vf_u8();
	check_back(data, n);
	VF_REACH("back");
}

#ifndef VF_CBMC
VF_PROOF(large)
{
	vf_init();
	url = vf_bool();
	int n = vf_range(0, 3) ? vf_range(0, 40) : vf_range(0, 3000);
	uint8_t* data = malloc(n + 1), *text = malloc(n + 1);
	for (int i = 0; i < n; i++)
	{
		data[i] = vf_u8();
		text[i] = base64_encode_table[vf_range(0, 61)];
	}
	if (n && vf_range(0, 3) == 0)
		text[vf_range(0, n - 1)] = vf_u8();
	/* exact allocations, the sanitizer sees any access outside of them */
	uint8_t* d = malloc(n ? n : 1);
	memcpy(d, data, n);
	check_encode(d, n);
	check_back(d, n);
	memcpy(d, text, n);
	check_decode(d, n);
	free(d);
	free(data);
	free(text);
	VF_REACH("large");
}
#endif
