//@proof toint kind=bounded unwind=24 timeout=400 bound=texts_of_at_most_21_bytes,_any_byte_values covers=str_toint
//@proof json_int kind=native fuzz=60000 bound=seeded_random_integer_literals_of_at_most_20_digits covers=json_parse

#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "amelie/runtime/json/json_parser.c"

#define NMAX 21

static int fill(char* text, int max)
{
	int n = vf_range(0, max);
	for (int i = 0; i < max; i++)
		text[i] = vf_bool() ? '0' + vf_range(0, 9) : (char)vf_u8();
	return n;
}

/* the mathematical value, as long as it fits int64 */
static bool minus;
static inline void step(uint64_t* m, bool* fits, int d)
{
	uint64_t hi = (uint64_t)INT64_MAX / 10; /* 922337203685477580, rest 7 (8 below zero) */
	if (*m > hi || (*m == hi && d > 7 + minus))
		*fits = false;
	if (*fits)
		*m = (*m << 3) + (*m << 1) + d;
}

/*
 * contract str_toint: returns 0 iff every byte is a decimal digit and the
 * value (computed mathematically) fits int64; then *value is that value.
 * The text is not modified.
 */
VF_PROOF(toint)
{
	vf_init();
	char text[NMAX], copy[NMAX];
	int n = fill(text, NMAX);
	memcpy(copy, text, NMAX);
	bool digits = true, fits = true;
	uint64_t m = 0;
	for (int i = 0; i < NMAX; i++)
	{
		if (i >= n)
			break;
		if (text[i] < '0' || text[i] > '9') {
			digits = false;
			break;
		}
		step(&m, &fits, text[i] - '0');
	}
	Str str;
	str_set(&str, text, n);
	int64_t value = 77;
	int rc = str_toint(&str, &value);
	VF_ENSURES(rc == 0 || rc == -1, "str_toint: returns 0 or -1");
	if (rc == 0)
	{
		VF_REACH("accepted");
		VF_ENSURES(digits && fits, "str_toint: accepts only numbers that fit");
		VF_ENSURES((uint64_t)value == m, "str_toint: exact value");
	} else {
		VF_REACH("rejected");
		VF_ENSURES(!digits || !fits, "str_toint: rejects only non-numbers or overflow");
	}
	VF_ENSURES(!memcmp(copy, text, NMAX), "str_toint: text unchanged");
}

/*
 * contract json_parse on an integer literal: the encoded value equals the
 * mathematical value; an error is raised iff it does not fit.
 */
VF_PROOF(json_int)
{
	vf_init();
	char text[NMAX + 1];
	int n = vf_range(1, NMAX - 1);
	minus = vf_bool();
	int at = 0;
	if (minus)
		text[at++] = '-';
	uint64_t m = 0;
	bool fits = true;
	for (int i = 0; i < NMAX - 1; i++)
	{
		if (i >= n)
			break;
		char c = '0' + vf_range(0, 9);
		text[at++] = c;
		step(&m, &fits, c - '0');
	}
	text[at] = 0;
	Str str;
	str_set(&str, text, at);
	static uint8_t data[64];
	Buf out;
	buf_init(&out);
	out.start = out.position = data;
	out.end = data + 64;
	static uint8_t stack[64];
	Json json;
	json_init(&json);
	json.stack.start = json.stack.position = stack;
	json.stack.end = stack + 64;
	VF_MAY_THROW(!fits);
	json_parse(&json, &str, &out);
	VF_ENSURES(fits, "json_parse: integer overflow is reported");
	VF_REACH("parsed");
	uint8_t* pos = data;
	int64_t value;
	json_read_integer(&pos, &value);
	VF_ENSURES(pos == out.position, "json_parse: exactly one value written");
	VF_ENSURES(minus ? -(uint64_t)value == m : (uint64_t)value == m, "json_parse: exact integer");
}
