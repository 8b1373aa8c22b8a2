//@proof arith unwind=2 covers=interval_add,interval_sub,interval_neg
//@proof compare unwind=2 covers=interval_compare
//@proof unit_year unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_years unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_month unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_months unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_week unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_weeks unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_day unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_days unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_hour unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_hours unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_hr unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_hrs unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_minute unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_minutes unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_min unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_mins unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_second unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_seconds unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_sec unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_secs unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_millisecond unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_milliseconds unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_ms unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_microsecond unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_microseconds unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit_us unwind=14 timeout=120 fuzz=2000 covers=interval_read_type
//@proof unit kind=native fuzz=100000 covers=interval_read_type
//@proof trunc_year unwind=14 timeout=200 fuzz=2000 covers=interval_trunc
//@proof trunc_month unwind=14 timeout=200 fuzz=2000 covers=interval_trunc
//@proof trunc_microsecond unwind=14 timeout=200 fuzz=2000 covers=interval_trunc
//@proof trunc_microseconds unwind=14 timeout=200 fuzz=2000 covers=interval_trunc
//@proof trunc_us unwind=14 timeout=200 fuzz=2000 covers=interval_trunc
//@proof trunc kind=native fuzz=300000 bound=seeded_random_intervals_and_fields covers=interval_trunc
//@proof extract kind=native fuzz=300000 bound=seeded_random_intervals_and_fields covers=interval_extract,interval_trunc
//@proof text kind=native fuzz=300000 bound=seeded_random_intervals covers=interval_set,interval_get
//@proof parse kind=native fuzz=300000 bound=seeded_random_texts_of_up_to_6_parts covers=interval_set
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "lib/interval.c"

typedef __int128 Big;

static Interval any(void)
{
	Interval iv;
	iv.m = vf_i32();
	iv.d = vf_i32();
	iv.us = vf_i64();
	return iv;
}
static bool fits32(int64_t v) { return v >= INT32_MIN && v <= INT32_MAX; }

/*
 * contract interval_add / sub / neg: field by field, and refused iff a field
 * does not fit; the operands are unchanged, the result may be an operand.
 */
VF_PROOF(arith)
{
	vf_init();
	Interval a = any(), b = any(), r, a0 = a, b0 = b;
	int op = vf_range(0, 2);
	int64_t m, d, us;
	bool over;
	if (op == 0)
	{
		m = (int64_t)a.m + b.m;
		d = (int64_t)a.d + b.d;
		over = __builtin_add_overflow(a0.us, b0.us, &us);
	} else
	if (op == 1)
	{
		m = (int64_t)a.m - b.m;
		d = (int64_t)a.d - b.d;
		over = __builtin_sub_overflow(a0.us, b0.us, &us);
	} else
	{
		m = -(int64_t)a.m;
		d = -(int64_t)a.d;
		over = __builtin_sub_overflow((int64_t)0, a0.us, &us);
	}
	bool ok = !over && fits32(m) && fits32(d);
	VF_MAY_THROW(!ok);
	bool alias = vf_bool();
	Interval* to = alias ? &a : &r;
	if (op == 0)
		interval_add(to, &a, &b);
	else
	if (op == 1)
		interval_sub(to, &a, &b);
	else
		interval_neg(to, &a);
	VF_ENSURES(ok, "interval arithmetic: overflow is refused");
	VF_REACH("computed");
	VF_ENSURES(to->m == m && to->d == d && to->us == us, "interval arithmetic: exact");
	VF_ENSURES(b.m == b0.m && b.d == b0.d && b.us == b0.us, "interval arithmetic: operand unchanged");
	VF_ENSURES(alias || (a.m == a0.m && a.d == a0.d && a.us == a0.us), "interval arithmetic: operand unchanged");
}

VF_PROOF(compare)
{
	vf_init();
	Interval a = any(), b = any(), c = any();
	int ab = interval_compare(&a, &b), ba = interval_compare(&b, &a);
	int bc = interval_compare(&b, &c), ac = interval_compare(&a, &c);
	VF_REACH("compare");
	VF_ENSURES((ab == 0) == (a.m == b.m && a.d == b.d && a.us == b.us), "interval_compare: equal iff same");
	VF_ENSURES((ab < 0) == (ba > 0) && (ab > 0) == (ba < 0), "interval_compare: antisymmetric");
	VF_ENSURES(!(ab <= 0 && bc <= 0) || ac <= 0, "interval_compare: transitive");
	if (a.m == b.m && a.d == b.d)
		VF_ENSURES((ab < 0) == (a.us < b.us), "interval_compare: shorter first");
}

/* units: name, months, days or microseconds each */
static const struct { const char* name; int m, d; int64_t us; } units[] = {
	{ "year", 12, 0, 0 }, { "years", 12, 0, 0 }, { "month", 1, 0, 0 }, { "months", 1, 0, 0 },
	{ "week", 0, 7, 0 }, { "weeks", 0, 7, 0 }, { "day", 0, 1, 0 }, { "days", 0, 1, 0 },
	{ "hour", 0, 0, 3600000000LL }, { "hours", 0, 0, 3600000000LL }, { "hr", 0, 0, 3600000000LL }, { "hrs", 0, 0, 3600000000LL },
	{ "minute", 0, 0, 60000000 }, { "minutes", 0, 0, 60000000 }, { "min", 0, 0, 60000000 }, { "mins", 0, 0, 60000000 },
	{ "second", 0, 0, 1000000 }, { "seconds", 0, 0, 1000000 }, { "sec", 0, 0, 1000000 }, { "secs", 0, 0, 1000000 },
	{ "millisecond", 0, 0, 1000 }, { "milliseconds", 0, 0, 1000 }, { "ms", 0, 0, 1000 },
	{ "microsecond", 0, 0, 1 }, { "microseconds", 0, 0, 1 }, { "us", 0, 0, 1 } };
#define UNITS 26

/* contract interval_read_type: one part adds exactly value units, or is refused */
static void unit_of(int u)
{
	Interval iv = any(), was = iv;
	int64_t value = vf_i64();
	Str type;
	str_set(&type, (char*)units[u].name, strlen(units[u].name));
	int64_t mul, us;
	bool over = __builtin_mul_overflow(value, units[u].us ? units[u].us : units[u].d ? units[u].d : units[u].m, &mul);
	bool ok = !over;
	us = was.us;
	int64_t m = was.m, d = was.d;
	if (ok)
	{
		if (units[u].us)
			ok = !__builtin_add_overflow(was.us, mul, &us);
		else
		if (units[u].d)
			ok = !__builtin_add_overflow((int64_t)was.d, mul, &d) && fits32(d);
		else
			ok = !__builtin_add_overflow((int64_t)was.m, mul, &m) && fits32(m);
	}
	VF_MAY_THROW(!ok);
	interval_read_type(&iv, &type, value);
	VF_ENSURES(ok, "interval part: overflow is refused");
	VF_ENSURES(iv.m == m && iv.d == d && iv.us == us, "interval part: exact");
}
#define UNIT_PROOF(n, i) VF_PROOF(unit_##n) { vf_init(); VF_REACH("unit"); unit_of(i); }
UNIT_PROOF(year, 0)
UNIT_PROOF(years, 1)
UNIT_PROOF(month, 2)
UNIT_PROOF(months, 3)
UNIT_PROOF(week, 4)
UNIT_PROOF(weeks, 5)
UNIT_PROOF(day, 6)
UNIT_PROOF(days, 7)
UNIT_PROOF(hour, 8)
UNIT_PROOF(hours, 9)
UNIT_PROOF(hr, 10)
UNIT_PROOF(hrs, 11)
UNIT_PROOF(minute, 12)
UNIT_PROOF(minutes, 13)
UNIT_PROOF(min, 14)
UNIT_PROOF(mins, 15)
UNIT_PROOF(second, 16)
UNIT_PROOF(seconds, 17)
UNIT_PROOF(sec, 18)
UNIT_PROOF(secs, 19)
UNIT_PROOF(millisecond, 20)
UNIT_PROOF(milliseconds, 21)
UNIT_PROOF(ms, 22)
UNIT_PROOF(microsecond, 23)
UNIT_PROOF(microseconds, 24)
UNIT_PROOF(us, 25)
VF_PROOF(unit)
{
	vf_init();
	VF_REACH("unit");
	int u = vf_range(0, UNITS - 1);
	switch (u) {
#define U(i) case i: unit_of(i); break;
	U(0) U(1) U(2) U(3) U(4) U(5) U(6) U(7) U(8) U(9) U(10) U(11) U(12) U(13) U(14) U(15) U(16) U(17) U(18) U(19) U(20) U(21) U(22) U(23) U(24) U(25)
	}
}

static const struct { const char* name; int64_t us; int64_t parent; } fields[] = {
	{ "year", -2, 0 }, { "month", -1, 0 }, { "day", 86400000000LL, 0 },
	{ "hour", 3600000000LL, 0 }, { "hr", 3600000000LL, 0 },
	{ "minute", 60000000, 3600000000LL }, { "min", 60000000, 3600000000LL },
	{ "second", 1000000, 60000000 }, { "sec", 1000000, 60000000 },
	{ "millisecond", 1000, 1000000 }, { "milliseconds", 1000, 1000000 }, { "ms", 1000, 1000000 },
	{ "microsecond", 1, 1000 }, { "microseconds", 1, 1000 }, { "us", 1, 1000 } };
#define FIELDS 15

/*
 * contract interval_trunc: removes everything finer than the field, towards
 * zero, and nothing else.
 */
static void trunc_of(int f)
{
	Interval iv = any(), was = iv;
	Str name;
	str_set(&name, (char*)fields[f].name, strlen(fields[f].name));
	interval_trunc(&iv, &name);
	int64_t u = fields[f].us;
	if (u < 0)
	{
		VF_ENSURES(iv.us == 0 && iv.d == 0, "interval_trunc: finer fields removed");
		VF_ENSURES(iv.m == (u == -2 ? was.m / 12 * 12 : was.m), "interval_trunc: months");
		return;
	}
	VF_ENSURES(iv.m == was.m && iv.d == was.d, "interval_trunc: coarser fields kept");
	VF_ENSURES(iv.us % u == 0, "interval_trunc: a whole number of units");
	int64_t rest = was.us - iv.us;
	VF_ENSURES(rest > -u && rest < u && (was.us >= 0 ? rest >= 0 && iv.us >= 0 : rest <= 0 && iv.us <= 0), "interval_trunc: only the rest is removed");
}
#define TRUNC_PROOF(n, i) VF_PROOF(trunc_##n) { vf_init(); VF_REACH("trunc"); trunc_of(i); }
TRUNC_PROOF(year, 0)
TRUNC_PROOF(month, 1)
TRUNC_PROOF(microsecond, 12)
TRUNC_PROOF(microseconds, 13)
TRUNC_PROOF(us, 14)

#ifndef VF_CBMC
VF_PROOF(trunc)
{
	vf_init();
	trunc_of(vf_range(0, FIELDS - 1));
	VF_REACH("trunc");
}
VF_PROOF(extract)
{
	vf_init();
	Interval iv = any(), was = iv;
	int f = vf_range(0, FIELDS);
	Str name;
	char junk[8];
	snprintf(junk, sizeof(junk), "%s", f < FIELDS ? fields[f].name : "mina");
	if (f == FIELDS)
	{
		junk[vf_range(0, 3)] = vf_range('a', 'z');
		str_set(&name, junk, vf_range(1, 4));
		bool known = false;
		for (int i = 0; i < FIELDS; i++)
			if (strlen(fields[i].name) == (size_t)str_size(&name) && !memcmp(fields[i].name, junk, str_size(&name)))
				known = true;
		VF_REQUIRES(!known);
		VF_MAY_THROW(true);
		if (vf_bool())
			interval_extract(&iv, &name);
		else
			interval_trunc(&iv, &name);
		VF_ENSURES(false, "interval field: unknown field refused");
	}
	str_set(&name, (char*)fields[f].name, strlen(fields[f].name));
	int64_t v = (int64_t)interval_extract(&iv, &name), e;
	int64_t u = fields[f].us;
	if (u == -2)
		e = was.m / 12;
	else if (u == -1)
		e = was.m % 12;
	else if (u == 86400000000LL)
		e = was.d;
	else
		e = (fields[f].parent ? was.us % fields[f].parent : was.us) / u;
	VF_ENSURES(v == e, "interval_extract: field");
	VF_ENSURES(!memcmp(&iv, &was, sizeof(iv)), "interval_extract: interval unchanged");
	trunc_of(f);
	VF_REACH("extract");
}

VF_PROOF(text)
{
	vf_init();
	Interval iv = any(), back;
	VF_REQUIRES(iv.d != INT32_MIN);
	char text[256];
	int n = interval_get(&iv, text, 256);
	VF_ENSURES(n >= 0 && n < 255, "interval_get: fits the buffer of the caller");
	Str s;
	str_set(&s, text, n);
	interval_init(&back);
	interval_set(&back, &s);
	VF_REACH("text");
	VF_ENSURES(back.m == iv.m && back.d == iv.d && back.us == iv.us, "interval text: reads back the interval");
}

VF_PROOF(parse)
{
	vf_init();
	char text[512];
	int at = 0, parts = vf_range(0, 6);
	Big m = 0, d = 0, us = 0;
	bool ok = true, bad = false;
	for (int i = 0; i < parts; i++)
	{
		int ws = i ? vf_range(1, 2) : vf_range(0, 2);
		while (ws--)
			text[at++] = vf_bool() ? ' ' : '\t';
		int u = vf_range(0, UNITS - 1);
		int64_t v = vf_range(0, 3) ? (int64_t)vf_srange(-100000, 100000) : vf_i64();
		if (v == INT64_MIN)
			v++;
		at += sprintf(text + at, "%s%" PRIi64 "%s %s", v < 0 && vf_range(0, 50) == 0 ? "-" : "", v, vf_bool() ? " " : "", units[u].name);
		if (strstr(text, "--"))
			bad = true;
		m += (Big)v * units[u].m;
		d += (Big)v * units[u].d;
		us += (Big)v * units[u].us;
		Big one = (Big)v * (units[u].us ? units[u].us : 1);
		ok = ok && one >= INT64_MIN && one <= INT64_MAX;
		ok = ok && m >= INT32_MIN && m <= INT32_MAX && d >= INT32_MIN && d <= INT32_MAX && us >= INT64_MIN && us <= INT64_MAX;
		switch (vf_range(0, 60)) {
		case 0: text[at - 1] = 'q'; bad = true; break;
		case 1: text[at++] = '1'; bad = true; break;
		case 2: text[at++] = 'x'; bad = true; break;
		case 3: at -= strlen(units[u].name); bad = true; break;
		}
		text[at] = 0;
		if (bad)
			break;
	}
	text[at] = 0;
	ok = ok && !bad;
	Str s;
	str_set(&s, text, at);
	Interval iv;
	interval_init(&iv);
	VF_MAY_THROW(!ok);
	interval_set(&iv, &s);
	VF_ENSURES(ok, "interval text: a value out of range or malformed text is refused");
	VF_REACH("parsed");
	VF_ENSURES(iv.m == m && iv.d == d && iv.us == us, "interval text: the sum of its parts");
}
#endif
