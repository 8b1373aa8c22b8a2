//@proof int_read kind=bounded unwind=24 timeout=400 bound=integer_literals_of_1..5_free_digits_or_922337203685477+1..5_free_digits covers=json_integer_read
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "amelie/runtime/json/json_parser.c"

#define NMAX 20

/* the mathematical value, as long as it fits int64 */
static bool minus;
static inline void step(uint64_t* m, bool* fits, int d)
{
	uint64_t hi = (uint64_t)INT64_MAX / 10; /* 922337203685477580, rest 7 (8 below zero) */
	if (*m > hi || (*m == hi && d > 7 + minus))
		*fits = false;
	if (*fits)
		*m = (*m << 3) + (*m << 1) + d;
}

/*
 * contract json_integer_read on [-]digits: returns true with the exact
 * mathematical value and consumes exactly the literal; an error is raised
 * only if the absolute value does not fit int64.
 */
VF_PROOF(int_read)
{
	vf_init();
	char text[NMAX + 2];
	minus = vf_bool();
	/* a free literal of 1..5 digits, or the digits around 2^63 */
	static const char prefix[] = "922337203685477";
	bool big = vf_bool();
	int  np  = big ? 15 : 0;
	int  n   = np + vf_range(1, 5);
	text[0] = '-';
	uint64_t m = 0;
	bool fits = true;
	for (int i = 0; i < NMAX; i++)
	{
		text[1 + i] = (i < np) ? prefix[i] : '0' + vf_range(0, 9);
		if (i < n)
		{
			step(&m, &fits, text[1 + i] - '0');
		}
	}
	text[1 + n] = vf_bool() ? ' ' : ',';
	Json json;
	memset(&json, 0, sizeof(json));
	json.pos = minus ? text : text + 1;
	json.end = text + n + 1 + (vf_bool() ? 1 : 0);
	int64_t value = 0;
	double real = 0;
	VF_MAY_THROW(!fits);
	bool is_int = json_integer_read(&json, &value, &real);
	VF_ENSURES(is_int, "an integer literal is read as an integer");
	VF_ENSURES(fits, "integer overflow is reported");
	VF_REACH("read");
	VF_ENSURES(json.pos == text + 1 + n, "exactly the literal is consumed");
	VF_ENSURES(minus ? -(uint64_t)value == m : (uint64_t)value == m, "exact integer");
}
