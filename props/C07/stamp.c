//@proof parse kind=native fuzz=600000 bound=seeded_random_texts covers=timestamp_set,timestamp_get_unixtime
//@proof text kind=native fuzz=400000 bound=seeded_random_instants_and_zones covers=timestamp_get,timestamp_set,timestamp_get_unixtime
//@proof fields kind=native fuzz=400000 bound=seeded_random_instants_and_zones covers=timestamp_extract,timestamp_trunc,timestamp_set_unixtime,timestamp_date,timestamp_set_date
//@proof arith kind=native fuzz=400000 bound=seeded_random_instants_and_intervals covers=timestamp_add,timestamp_sub,timestamp_get_unixtime,timestamp_set_unixtime
//@nflags -fno-sanitize=signed-integer-overflow
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "os/vfs.c"
#include "lib/timezone.c"
#include "lib/date.c"
#include "lib/timestamp.c"

#ifndef VF_CBMC
static Timezone     tz;
static int32_t      T[8];
static uint8_t      types[8];
static TimezoneTime times[8];

/* a zone with transitions more than two days apart */
static void zone_make(int step)
{
	int n = vf_range(0, 6);
	int64_t at = INT32_MIN;
	for (int i = 0; i < n; i++)
	{
		at += 172800 + vf_range(0, 700000000);
		if (at > INT32_MAX)
			n = i;
		T[i] = at;
		types[i] = vf_range(0, 7);
	}
	for (int i = 0; i < 8; i++)
		times[i].utoff = vf_srange(-54000 / step, 54000 / step) * step;
	tz.header.timecnt = n;
	tz.transition_times = (void*)T;
	tz.transition_types = types;
	tz.times = times;
}
static int64_t offset_at(int64_t t)
{
	int at = 0;
	for (uint32_t i = 0; i < tz.header.timecnt; i++)
		if (T[i] <= t)
			at = types[i];
	return times[at].utoff;
}
static int64_t instant(void)
{
	switch (vf_range(0, 7)) {
	case 0: return TIMESTAMP_MIN + vf_range(0, 5000000);
	case 1: return TIMESTAMP_MAX - vf_range(0, 5000000);
	case 2: return vf_range(0, 4000000000LL) * 1000000;
	case 3: return vf_range(0, 4000000000LL) * 1000000 + 999999;
	case 4: if (tz.header.timecnt)
		{
			int64_t t = ((int64_t)T[vf_range(0, tz.header.timecnt - 1)] + vf_srange(-3, 3)) * 1000000;
			if (t >= 0)
				return t + vf_range(0, 999999);
		}
		/* fallthrough */
	default: return vf_range(0, TIMESTAMP_MAX);
	}
}
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
/* days since 1970-01-01 of a date; months and days may be out of range */
static __int128 days_of(int64_t y, int64_t m, __int128 d)
{
	y += m / 12;
	m %= 12;
	if (m < 0)
	{
		m += 12;
		y--;
	}
	static const int before[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
	/* whole years since year 0 */
	__int128 p = y - 1;
	#define FLOOR(a, b) ((a) >= 0 ? (a) / (b) : -((-(a) + (b) - 1) / (b)))
	__int128 n = p * 365 + FLOOR(p, 4) - FLOOR(p, 100) + FLOOR(p, 400);
	n += before[m] + (m > 1 && leap(y) ? 1 : 0) + d - 1;
	return n - 719162;
}

/* the texts accepted: ws* dddd-dd-dd(' '|T)dd:dd:dd[.d{1,6}][Z|(+-)dd[[:]dd]] */
static int num(const char* p, int n)
{
	int v = 0;
	while (n--)
	{
		if (*p < '0' || *p > '9')
			return -100000000;
		v = v * 10 + *p++ - '0';
	}
	return v;
}
static bool oracle(const char* p, const char* end, int64_t* value)
{
	while (p < end && strchr(" \t\n\v\f\r", *p) && *p)
		p++;
	if (end - p < 19)
		return false;
	int y = num(p, 4), mo = num(p + 5, 2), d = num(p + 8, 2), h = num(p + 11, 2), mi = num(p + 14, 2), s = num(p + 17, 2);
	if (y < 0 || mo < 0 || d < 0 || h < 0 || mi < 0 || s < 0 || p[4] != '-' || p[7] != '-' || (p[10] != ' ' && p[10] != 'T') || p[13] != ':' || p[16] != ':')
		return false;
	p += 19;
	int us = 0;
	if (p < end && *p == '.')
	{
		int scale = 100000, digits = 0;
		for (p++; p < end && *p >= '0' && *p <= '9'; p++, digits++)
		{
			us += (*p - '0') * scale;
			scale /= 10;
		}
		if (digits < 1 || digits > 6)
			return false;
	}
	int zone = 0;
	if (p < end)
	{
		if (*p == 'Z')
			p++;
		else if (*p == '+' || *p == '-')
		{
			int sign = *p == '-' ? -1 : 1;
			if (end - p < 3)
				return false;
			int hh = num(p + 1, 2), mm = 0;
			p += 3;
			if (p < end)
			{
				if (*p == ':')
					p++;
				if (end - p != 2)
					return false;
				mm = num(p, 2);
				p += 2;
			}
			if (hh < 0 || mm < 0)
				return false;
			zone = sign * (hh * 3600 + mm * 60);
		} else
			return false;
	}
	if (p != end)
		return false;
	if (y < 1970 || y > 9999 || mo < 1 || mo > 12 || d < 1 || d > 31 || zone > 86400 || zone < -86400)
		return false;
	int64_t sec = (int64_t)days_of(y, mo - 1, d) * 86400 + h * 3600 + mi * 60 + s - zone;
	if (sec < 0 || sec > TIMESTAMP_MAX / 1000000)
		return false;
	*value = sec * 1000000 + us;
	return true;
}

VF_PROOF(parse)
{
	vf_init();
	setenv("TZ", "UTC", 1);
	tz.header.timecnt = 0;
	tz.times = times;
	times[0].utoff = 0;
	char t[128];
	int at = 0;
	if (vf_range(0, 7) == 0)
		for (int i = vf_range(0, 4); i > 0; i--)
			t[at++] = " \t\n\r"[vf_range(0, 3)];
	at += sprintf(t + at, "%04d-%02d-%02d%c%02d:%02d:%02d", (int)(vf_range(0, 9) ? vf_range(1970, 9999) : vf_range(0, 9999)), (int)vf_range(0, 13), (int)vf_range(0, 32), vf_bool() ? ' ' : 'T',
	              (int)vf_range(0, 24), (int)vf_range(0, 60), (int)vf_range(0, 99));
	if (vf_bool())
	{
		t[at++] = '.';
		for (int i = vf_range(0, 20) ? vf_range(1, 6) : vf_range(0, 20); i > 0; i--)
			t[at++] = '0' + vf_range(0, 9);
	}
	switch (vf_range(0, 5)) {
	case 0: t[at++] = 'Z'; break;
	case 1: at += sprintf(t + at, "%c%02d", vf_bool() ? '+' : '-', (int)vf_range(0, 25)); break;
	case 2: at += sprintf(t + at, "%c%02d%02d", vf_bool() ? '+' : '-', (int)vf_range(0, 14), (int)vf_range(0, 99)); break;
	case 3: at += sprintf(t + at, "%c%02d:%02d", vf_bool() ? '+' : '-', (int)vf_range(0, 25), (int)vf_range(0, 59)); break;
	}
	switch (vf_range(0, 6)) {
	case 0: at = vf_range(0, at); break;
	case 1: t[vf_range(0, at - 1)] = vf_u8(); break;
	case 2: t[vf_range(0, at - 1)] = '0' + vf_range(0, 9); break;
	case 3: t[at++] = " 0:Z.+"[vf_range(0, 5)]; break;
	}
	/* exactly sized, so that reading past it is seen */
	char* text = malloc(at + 1);
	memcpy(text, t, at);
	char* exact = at ? realloc(text, at) : text;
	Str s;
	str_set(&s, exact, at);
	int64_t expect = 0;
	bool ok = oracle(exact, exact + at, &expect);
	Timestamp ts;
	timestamp_init(&ts);
	int64_t value = 0;
	bool failed = error_catch( timestamp_set(&ts, &s); value = timestamp_get_unixtime(&ts, &tz) );
	free(exact);
	VF_ENSURES(failed == !ok, "timestamp text: accepted iff it is one in range");
	if (failed)
		return;
	VF_REACH("parsed");
	VF_ENSURES(value == expect, "timestamp text: the instant written");
}

VF_PROOF(text)
{
	vf_init();
	setenv("TZ", "UTC", 1);
	zone_make(60);
	int64_t v = instant();
	bool with = vf_bool();
	/* what is not an instant is refused */
	int64_t wild = vf_bool() ? (int64_t)vf_u64() : vf_bool() ? TIMESTAMP_MIN - 1 - (int64_t)vf_range(0, 100) : TIMESTAMP_MAX + 1 + (int64_t)vf_range(0, 100);
	if (wild < TIMESTAMP_MIN || wild > TIMESTAMP_MAX)
	{
		char text[128];
		VF_ENSURES(error_catch( timestamp_get(wild, NULL, text, sizeof(text)) ), "timestamp text: out of range is refused");
	}
	int64_t off = with ? offset_at(v / 1000000) : 0;
	int64_t local = v / 1000000 + off;
	time_t lt = local;
	struct tm tm;
	gmtime_r(&lt, &tm);
	char text[128], e[160];
	int n = timestamp_get(v, with ? &tz : NULL, text, sizeof(text));
	int us = v % 1000000, k = snprintf(e, sizeof(e), "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
	VF_ENSURES(n < 128 && !memcmp(text, e, k), "timestamp text: local clock");
	Str s;
	str_set(&s, text, n);
	Timestamp ts;
	timestamp_init(&ts);
	/* the text of years before 1970 or after 9999 (local clock) does not read back */
	VF_REQUIRES(tm.tm_year >= 70 && tm.tm_year < 8100);
	timestamp_set(&ts, &s);
	VF_ENSURES(ts.zone_set == with && (!with || ts.zone == off), "timestamp text: offset");
	VF_ENSURES(ts.us == us, "timestamp text: fraction");
	int64_t back = timestamp_get_unixtime(&ts, with ? &tz : NULL);
	VF_REACH("text");
	VF_ENSURES(back == v, "timestamp text: reads back the same instant");
}

VF_PROOF(fields)
{
	vf_init();
	setenv("TZ", "UTC", 1);
	zone_make(1);
	int64_t v = instant();
	int64_t off = offset_at(v / 1000000);
	static const char* names[] = { "year", "month", "day", "hour", "hr", "minute", "min", "second", "sec", "millisecond", "milliseconds", "ms", "microsecond", "microseconds", "us" };
	static const int   kind[]  = { 0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 6, 7, 7, 7 };
	int f = vf_range(0, 14), k = kind[f];
	Str s;
	str_set(&s, (char*)names[f], strlen(names[f]));
	time_t lt = v / 1000000 + off, ut = v / 1000000;
	struct tm l, u;
	gmtime_r(&lt, &l);
	gmtime_r(&ut, &u);
	int us = v % 1000000;
	int64_t e[] = { l.tm_year + 1900, l.tm_mon + 1, l.tm_mday, l.tm_hour, l.tm_min, l.tm_sec, us / 1000, us };
	VF_ENSURES(timestamp_extract(v, &tz, &s) == e[k], "timestamp_extract: field of the local clock");
	/* trunc, on the clock of the instant */
	Timestamp ts;
	timestamp_init(&ts);
	timestamp_set_unixtime(&ts, v);
	VF_ENSURES(ts.us == us && ts.time.tm_year == u.tm_year && ts.time.tm_mon == u.tm_mon && ts.time.tm_mday == u.tm_mday && ts.time.tm_hour == u.tm_hour &&
	           ts.time.tm_min == u.tm_min && ts.time.tm_sec == u.tm_sec, "timestamp_set_unixtime: clock");
	timestamp_trunc(&ts, &s);
	int64_t t = timestamp_get_unixtime(&ts, NULL);
	int64_t day = (int64_t)days_of(u.tm_year + 1900, k >= 1 ? u.tm_mon : 0, k >= 2 ? u.tm_mday : 1);
	int64_t sec = day * 86400 + (k >= 3 ? u.tm_hour * 3600 : 0) + (k >= 4 ? u.tm_min * 60 : 0) + (k >= 5 ? u.tm_sec : 0);
	VF_ENSURES(t == sec * 1000000 + (k == 6 ? us / 1000 * 1000 : k == 7 ? us : 0), "timestamp_trunc: finer fields removed");
	/* date */
	int64_t j = timestamp_date(v);
	VF_ENSURES(j == 2440588 + v / 86400000000LL, "timestamp_date: day of the instant");
	timestamp_init(&ts);
	timestamp_set_date(&ts, j);
	VF_ENSURES(timestamp_get_unixtime(&ts, NULL) == (j - 2440588) * 86400000000LL, "timestamp_set_date: midnight of the day");
	/* unknown field */
	char junk[4] = { "abdmhsuy"[vf_range(0, 7)], vf_range('a', 'z'), vf_range('a', 'z') };
	str_set(&s, junk, vf_range(1, 3));
	bool known = false;
	for (int i = 0; i < 15; i++)
		if (strlen(names[i]) == (size_t)str_size(&s) && !memcmp(names[i], junk, str_size(&s)))
			known = true;
	bool failed = vf_bool() ? error_catch( timestamp_extract(v, &tz, &s) ) : error_catch( timestamp_trunc(&ts, &s) );
	VF_ENSURES(failed == !known, "timestamp field: unknown field refused");
	VF_REACH("fields");
}

VF_PROOF(arith)
{
	vf_init();
	setenv("TZ", "UTC", 1);
	tz.header.timecnt = 0;
	int64_t v = instant();
	Interval iv;
	interval_init(&iv);
	int what = vf_range(0, 4);
	if (what == 0 || what > 2)
		iv.m = vf_range(0, 9) ? vf_srange(-2000, 2000) : vf_i32();
	if (what == 1 || what > 2)
		iv.d = vf_range(0, 9) ? vf_srange(-50000, 50000) : vf_i32();
	if (what >= 2)
		iv.us = vf_range(0, 9) ? vf_srange(-100000000000000LL, 100000000000000LL) : vf_i64();
	bool minus = vf_bool();
	int sg = minus ? -1 : 1;
	Timestamp ts;
	timestamp_init(&ts);
	timestamp_set_unixtime(&ts, v);
	struct tm u = ts.time;
	/* calendar months first (the day carries over), then days, then time */
	__int128 day = days_of((int64_t)u.tm_year + 1900, u.tm_mon + (int64_t)iv.m * sg, (__int128)u.tm_mday + (int64_t)iv.d * sg);
	__int128 e = (day * 86400 + u.tm_hour * 3600 + u.tm_min * 60 + u.tm_sec) * 1000000 + v % 1000000 + (__int128)iv.us * sg;
	bool ok = e >= TIMESTAMP_MIN && e <= TIMESTAMP_MAX;
	int64_t r = 0;
	if (minus)
		timestamp_sub(&ts, &iv);
	else
		timestamp_add(&ts, &iv);
	bool failed = error_catch( r = timestamp_get_unixtime(&ts, NULL) );
	/* the last second before the epoch is the way mktime() reports an error */
	VF_REQUIRES(!(e >= -2000000 && e < 2000000));
	VF_ENSURES(failed == !ok, "timestamp arithmetic: a result out of range is refused, others are not");
	if (failed)
		return;
	VF_REACH("computed");
	VF_ENSURES(r == (int64_t)e, "timestamp arithmetic: calendar months, then days, then time");
}
#endif
