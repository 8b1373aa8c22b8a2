//@proof next kind=proof unwind=6 timeout=200 covers=utf8_next
//@proof size kind=proof covers=utf8_sizeof
//@proof walk kind=bounded unwind=10 timeout=300 bound=texts_of_up_to_6_bytes covers=utf8_strlen,utf8_forward,utf8_backward,utf8_at,utf8_next
//@proof all kind=native fuzz=3 covers=utf8_next,utf8_sizeof
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>

/* RFC 3629, table 3-7 of the Unicode standard: size of the well-formed
 * sequence which starts at p, 0 if there is none */
static int sequence(const uint8_t* p, int n, int* code)
{
	if (n < 1)
		return 0;
	uint8_t a = p[0];
	if (a <= 0x7F)
	{
		*code = a;
		return 1;
	}
	if (a >= 0xC2 && a <= 0xDF)
	{
		if (n < 2 || p[1] < 0x80 || p[1] > 0xBF)
			return 0;
		*code = (a - 0xC0) * 64 + (p[1] - 0x80);
		return 2;
	}
	if (a >= 0xE0 && a <= 0xEF)
	{
		uint8_t lo = a == 0xE0 ? 0xA0 : 0x80, hi = a == 0xED ? 0x9F : 0xBF;
		if (n < 3 || p[1] < lo || p[1] > hi || p[2] < 0x80 || p[2] > 0xBF)
			return 0;
		*code = (a - 0xE0) * 4096 + (p[1] - 0x80) * 64 + (p[2] - 0x80);
		return 3;
	}
	if (a >= 0xF0 && a <= 0xF4)
	{
		uint8_t lo = a == 0xF0 ? 0x90 : 0x80, hi = a == 0xF4 ? 0x8F : 0xBF;
		if (n < 4 || p[1] < lo || p[1] > hi || p[2] < 0x80 || p[2] > 0xBF || p[3] < 0x80 || p[3] > 0xBF)
			return 0;
		*code = (a - 0xF0) * 262144 + (p[1] - 0x80) * 4096 + (p[2] - 0x80) * 64 + (p[3] - 0x80);
		return 4;
	}
	return 0;
}

static void check_next(uint8_t* p, int n)
{
	int code = -1;
	int size = sequence(p, n, &code);
	char* pos = (char*)p;
	int rc = utf8_next(&pos, (char*)p + n);
	if (size == 0)
	{
		VF_ENSURES(rc == -1, "utf8_next: refuses anything but well-formed sequences");
	} else
	{
		VF_ENSURES(rc == code, "utf8_next: the code point");
		VF_ENSURES(pos == (char*)p + size, "utf8_next: moves over the sequence");
		VF_ENSURES(utf8_sizeof((char)p[0]) == size && utf8_sizeof(p[0]) == size, "utf8_sizeof: the size of the sequence");
	}
}

VF_PROOF(next)
{
	vf_init();
	VF_MAY_THROW(false);
	int n = vf_range(1, 5);
#ifdef VF_CBMC
	static uint8_t mem[5];
	uint8_t* p = mem + 5 - n;
#else
	uint8_t* p = malloc(n);
#endif
	for (int i = 0; i < n; i++)
	{
		p[i] = vf_u8();
		VF_NATIVE_ONLY(if (i && vf_range(0, 3)) p[i] = vf_range(0x80, 0xBF);)
	}
	check_next(p, n);
	VF_NATIVE_ONLY(free(p);)
	VF_REACH("next");
}

VF_PROOF(size)
{
	vf_init();
	VF_MAY_THROW(false);
	uint8_t c = vf_u8();
	int size = c < 0x80 ? 1 : c < 0xC0 ? -1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : -1;
	VF_ENSURES(utf8_sizeof(c) == size && utf8_sizeof((char)c) == size, "utf8_sizeof");
	VF_REACH("size");
}

/* a well-formed text: characters are counted and stepped over as written */
static int text_of(uint8_t* p, int max, int* starts)
{
	int n = 0, chars = 0, want = vf_range(0, max);
	for (int i = 0; i < want; i++)
	{
		int size = vf_range(1, 4), code;
		if (n + size > max)
			break;
		for (int j = 0; j < size; j++)
			p[n + j] = vf_u8();
#ifndef VF_CBMC
		static const uint8_t first[5] = { 0, 0, 0xC0, 0xE0, 0xF0 }, mask[5] = { 0, 0x7F, 0x1F, 0xF, 7 };
		p[n] = first[size] | (p[n] & mask[size]);
		for (int j = 1; j < size; j++)
			p[n + j] = 0x80 | (p[n + j] & 63);
#endif
		int got = sequence(p + n, size, &code);
#ifdef VF_CBMC
		VF_REQUIRES(got == size);
#else
		if (got != size)
			continue;
#endif
		starts[chars++] = n;
		n += size;
	}
	starts[chars] = n;
	return chars;
}

VF_PROOF(walk)
{
	vf_init();
	VF_MAY_THROW(false);
#ifdef VF_CBMC
	enum { MAX = 6 };
#else
	enum { MAX = 64 };
#endif
	static uint8_t p[MAX + 1];
	static int starts[MAX + 1];
	int chars = text_of(p, MAX, starts);
	Str s;
	str_set(&s, (char*)p, starts[chars]);
	VF_ENSURES((int)utf8_strlen(&s) == chars, "utf8_strlen: characters");
	int k = vf_range(0, MAX);
	VF_REQUIRES(k <= chars);
	VF_ENSURES(utf8_at((char*)p, k) == (char*)p + starts[k], "utf8_at: start of a character");
	if (k < chars)
	{
		char* pos = (char*)p + starts[k];
		utf8_forward(&pos);
		VF_ENSURES(pos == (char*)p + starts[k + 1], "utf8_forward: next character");
		pos = (char*)p + starts[k + 1] - 1;
		utf8_backward(&pos);
		VF_ENSURES(pos == (char*)p + starts[k], "utf8_backward: start of the character");
		pos = (char*)p + starts[k];
		VF_ENSURES(utf8_next(&pos, s.end) >= 0 && pos == (char*)p + starts[k + 1], "utf8_next: next character");
		VF_REACH("character");
	}
}

#ifndef VF_CBMC
/* every code point there is and every lead of three bytes */
VF_PROOF(all)
{
	vf_init();
	VF_MAY_THROW(false);
	uint8_t* p = malloc(4);
	int count = 0;
	for (int a = 0x80; a < 0x100; a++)
	for (int b = 0; b < 0x100; b++)
	for (int c = 0; c < 0x100; c += vf_range(1, 5))
	{
		p[0] = a; p[1] = b; p[2] = c; p[3] = vf_u8();
		check_next(p, 4);
		count++;
	}
	free(p);
	VF_REACH("all");
}
#endif
