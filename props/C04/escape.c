//@proof unicode unwind=8 timeout=200 bound=every_\uXXXX covers=unescape_str
//@proof pair unwind=14 timeout=300 bound=every_pair covers=unescape_str
//@proof character unwind=4 timeout=200 covers=unescape_str
//@proof plain kind=bounded unwind=8 timeout=300 bound=texts_of_at_most_5_bytes_without_\u covers=unescape_str
//@proof back kind=bounded unwind=12 timeout=300 bound=texts_of_at_most_4_bytes covers=escape_str,unescape_str
//@proof bytes kind=native fuzz=100000 bound=every_text_of_at_most_2_bytes,_seeded_random_texts_of_at_most_200_bytes covers=escape_str,unescape_str,encode_string_unescape
//@flags -DVF_NO_REALLOC
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>

static uint8_t mem[64];
static Buf     buf;

static void setup(void)
{
	buf_init(&buf);
#ifdef VF_CBMC
	buf.start = buf.position = mem;
	buf.end = mem + sizeof(mem);
#else
	buf_reserve(&buf, 256);
	mem[0] = 0;
#endif
}

static int hex(uint8_t c)
{
	if (c >= '0' && c <= '9')
		return c - '0';
	if (c >= 'a' && c <= 'f')
		return c - 'a' + 10;
	if (c >= 'A' && c <= 'F')
		return c - 'A' + 10;
	return -1;
}

static int hex4(uint8_t* p)
{
	int v = 0;
	for (int i = 0; i < 4; i++)
	{
		if (hex(p[i]) < 0)
			return -1;
		v = v * 16 + hex(p[i]);
	}
	return v;
}

/* is the content of the buffer the utf-8 form of u */
static void check_utf8(int u)
{
	int n = u < 0x80 ? 1 : u < 0x800 ? 2 : u < 0x10000 ? 3 : 4;
	VF_ENSURES(buf_size(&buf) == n, "unescape_str: size of the utf-8 form");
	uint8_t* b = buf.start;
	switch (n) {
	case 1: VF_ENSURES(b[0] == u, "unescape_str: utf-8"); break;
	case 2: VF_ENSURES((b[0] & 0xE0) == 0xC0 && (b[1] & 0xC0) == 0x80 && ((b[0] & 0x1F) << 6 | (b[1] & 0x3F)) == u, "unescape_str: utf-8"); break;
	case 3: VF_ENSURES((b[0] & 0xF0) == 0xE0 && (b[1] & 0xC0) == 0x80 && (b[2] & 0xC0) == 0x80 && ((b[0] & 0x0F) << 12 | (b[1] & 0x3F) << 6 | (b[2] & 0x3F)) == u, "unescape_str: utf-8"); break;
	case 4: VF_ENSURES((b[0] & 0xF8) == 0xF0 && (b[1] & 0xC0) == 0x80 && (b[2] & 0xC0) == 0x80 && (b[3] & 0xC0) == 0x80 && ((b[0] & 0x07) << 18 | (b[1] & 0x3F) << 12 | (b[2] & 0x3F) << 6 | (b[3] & 0x3F)) == u, "unescape_str: utf-8"); break;
	}
}

/* contract unescape_str on \uXXXX: the character, or an error when these are
 * not four hexadecimal digits or half of a pair */
VF_PROOF(unicode)
{
	vf_init();
	setup();
	uint8_t text[6] = { '\\', 'u' };
	for (int i = 0; i < 4; i++)
		text[2 + i] = vf_bool() ? "0123456789abcdefABCDEF"[vf_range(0, 21)] : vf_u8();
	int u = hex4(text + 2);
	bool ok = u >= 0 && (u < 0xD800 || u > 0xDFFF);
	VF_MAY_THROW(! ok);
	Str str;
	str_set(&str, (char*)text, vf_range(2, 6));
	if (str_size(&str) != 6)
		VF_MAY_THROW(true);
	unescape_str(&buf, &str);
	VF_ENSURES(ok && str_size(&str) == 6, "unescape_str: refuses broken escapes");
	VF_REACH("decoded");
	check_utf8(u);
	VF_NATIVE_ONLY(buf_free_memory(&buf);)
}

/* a surrogate pair */
VF_PROOF(pair)
{
	vf_init();
	setup();
	uint8_t text[12] = { '\\', 'u', 'd', 0, 0, 0, '\\', 'u', 'D', 0, 0, 0 };
	text[3] = "89abAB"[vf_range(0, 5)];
	text[4] = vf_bool() ? '0' : vf_u8();
	text[5] = vf_bool() ? 'f' : vf_u8();
	text[6] = vf_bool() ? '\\' : vf_u8();
	text[7] = vf_bool() ? 'u' : vf_u8();
	for (int i = 9; i < 12; i++)
		text[i] = vf_bool() ? "cdefCDEF"[vf_range(0, 7)] : vf_u8();
	int high = hex4(text + 2);
	int low  = hex4(text + 8);
	bool ok = high >= 0 && text[6] == '\\' && text[7] == 'u' && low >= 0xDC00;
	VF_MAY_THROW(! ok);
	Str str;
	str_set(&str, (char*)text, 12);
	unescape_str(&buf, &str);
	VF_ENSURES(ok, "unescape_str: refuses half of a pair");
	VF_REACH("decoded");
	check_utf8(0x10000 + (high - 0xD800) * 0x400 + (low - 0xDC00));
	VF_NATIVE_ONLY(buf_free_memory(&buf);)
}

static int unescaped(int c)
{
	switch (c) {
	case 'a': return '\a';
	case 'b': return '\b';
	case 'f': return '\f';
	case 'n': return '\n';
	case 'r': return '\r';
	case 't': return '\t';
	case 'v': return '\v';
	}
	return c;
}

/* every character behind a backslash */
VF_PROOF(character)
{
	vf_init();
	setup();
	uint8_t text[2] = { '\\', vf_u8() };
	VF_MAY_THROW(text[1] == 'u');
	Str str;
	str_set(&str, (char*)text, 2);
	unescape_str(&buf, &str);
	VF_REACH("decoded");
	VF_ENSURES(buf_size(&buf) == 1, "unescape_str: one character");
	VF_ENSURES(*buf.start == unescaped(text[1]), "unescape_str: the character of the escape");
	VF_NATIVE_ONLY(buf_free_memory(&buf);)
}

/* other characters stay as they are */
VF_PROOF(plain)
{
	vf_init();
	setup();
	uint8_t text[5];
	int n = vf_range(0, 5);
	for (int i = 0; i < 5; i++)
	{
		text[i] = vf_bool() ? '\\' : vf_u8();
		VF_REQUIRES(text[i] != 'u');
	}
	/* reference */
	uint8_t want[5];
	int size = 0;
	bool slash = false;
	for (int i = 0; i < 5; i++)
	{
		if (i >= n)
			break;
		if (slash)
		{
			want[size++] = unescaped(text[i]);
			slash = false;
		} else
		if (text[i] == '\\')
			slash = true;
		else
			want[size++] = text[i];
	}
	VF_MAY_THROW(false);
	Str str;
	str_set(&str, (char*)text, n);
	unescape_str(&buf, &str);
	VF_REACH("decoded");
	VF_ENSURES(buf_size(&buf) == size, "unescape_str: size");
	int i = vf_range(0, 4);
	if (i < size)
		VF_ENSURES(buf.start[i] == want[i], "unescape_str: bytes");
	VF_NATIVE_ONLY(buf_free_memory(&buf);)
}

static void check_back(uint8_t* text, int n)
{
	VF_MAY_THROW(false);
	Str str;
	str_set(&str, (char*)text, n);
	escape_str(&buf, &str);
	int size = buf_size(&buf);
	/* the quote ends the string, control characters are not allowed in JSON */
	bool slash = false;
#ifdef VF_CBMC
	for (int i = 0; i < 8; i++)
#else
	for (int i = 0; i < size; i++)
#endif
	{
		if (i >= size)
			break;
		VF_ENSURES(buf.start[i] >= 0x20, "escape_str: no control characters");
		VF_ENSURES(buf.start[i] != '"' || slash, "escape_str: no quotes");
		slash = buf.start[i] == '\\' && ! slash;
	}
	VF_ENSURES(! slash, "escape_str: complete escapes");
#ifdef VF_CBMC
	static uint8_t copy[16];
	for (int i = 0; i < 8; i++)
		copy[i] = mem[i];
	str_set(&str, (char*)copy, size);
	buf_reset(&buf);
	unescape_str(&buf, &str);
	VF_ENSURES(buf_size(&buf) == n, "escape_str: size");
	int i = vf_range(0, 3);
	if (i < n)
		VF_ENSURES(buf.start[i] == text[i], "escape_str: the text comes back");
#else
	Buf back;
	buf_init(&back);
	str_set(&str, (char*)buf.start, size);
	encode_string_unescape(&back, &str);
	uint8_t* pos = back.start;
	json_read_string(&pos, &str);
	VF_ENSURES(pos == back.position, "encode_string_unescape: size");
	VF_ENSURES(str_size(&str) == n && ! memcmp(str_of(&str), text, n), "escape_str: the text comes back");
	buf_free_memory(&back);
#endif
	VF_REACH("back");
}

VF_PROOF(back)
{
	vf_init();
	setup();
	uint8_t text[4];
	int n = vf_range(0, 4);
	for (int i = 0; i < 4; i++)
	{
		text[i] = vf_bool() ? "\"\\\b\f\n\r\t"[vf_range(0, 6)] : vf_range(0x20, 0xFF);
	}
	check_back(text, n);
	VF_NATIVE_ONLY(buf_free_memory(&buf);)
}

VF_PROOF(bytes)
{
	vf_init();
#ifndef VF_CBMC
	uint8_t text[200];
	static int next;
	int n;
	if (next < 65536 + 256 && ! vf_replaying)
	{
		/* every text of one and two bytes */
		n = next < 256 ? 1 : 2;
		vf_put(n);
		vf_put(text[0] = next);
		vf_put(text[1] = next >> 8);
		if (n == 2)
			text[1] -= 1, vf_log[vf_log[0]] = text[1];
		next++;
	} else
	{
		n = vf_range(0, 200);
		for (int i = 0; i < 200; i++)
		{
			text[i] = vf_u8();
			if (vf_replaying && i + 1 >= n)
				break;
		}
	}
	setup();
	check_back(text, n);
	buf_free_memory(&buf);
#else
	VF_REACH("-");
#endif
}

