//@proof next unwind=2 timeout=300 covers=date_get_gregorian
//@proof arith unwind=2 covers=date_add,date_sub,date_set_julian
//@proof extract unwind=8 covers=date_extract
//@proof calendar kind=native fuzz=1 bound=every_day_from_0001-01-01_to_9999-12-31_(exhaustive) covers=date_get_gregorian,date_set_gregorian,date_get,date_set
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "amelie/runtime/lib/date.c"

static bool leap(int y)
{
	return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}

static int days_in(int y, int m)
{
	if (m == 2)
		return leap(y) ? 29 : 28;
	return (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}

/*
 * contract date_get_gregorian: the first day is 0001-01-01, and every next
 * day number is the next day of the Gregorian calendar. By induction this
 * fixes the date of every day number.
 */
VF_PROOF(next)
{
	vf_init();
	int64_t j = vf_range(DATE_MIN, DATE_MAX);
	int y, m, d;
	date_get_gregorian(j, &y, &m, &d);
	VF_REACH("day");
	VF_ENSURES(y >= 1 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= days_in(y, m), "date_get_gregorian: a date of the calendar");
	if (j == DATE_MIN)
		VF_ENSURES(y == 1 && m == 1 && d == 1, "date_get_gregorian: first day");
	if (j == DATE_MAX)
	{
		VF_ENSURES(y == 9999 && m == 12 && d == 31, "date_get_gregorian: last day");
		return;
	}
	int y1, m1, d1;
	date_get_gregorian(j + 1, &y1, &m1, &d1);
	if (++d > days_in(y, m))
	{
		d = 1;
		if (++m > 12)
		{
			m = 1;
			y++;
		}
	}
	VF_ENSURES(y == y1 && m == m1 && d == d1, "date_get_gregorian: next day number is the next date");
}

VF_PROOF(arith)
{
	vf_init();
	int64_t j = vf_i64();
	int days = vf_i32();
	int op = vf_range(0, 2);
	bool in = j >= DATE_MIN && j <= DATE_MAX;
	int64_t r = op == 0 ? j : 0;
	if (in)
		r = op == 0 ? j + days : op == 1 ? j - days : j;
	bool ok = in && r >= DATE_MIN && r <= DATE_MAX;
	VF_MAY_THROW(!ok);
	int got = op == 0 ? date_add(j, days) : op == 1 ? date_sub(j, days) : date_set_julian(j);
	VF_ENSURES(ok, "date_add / date_sub: refuses a result out of range");
	VF_ENSURES(got == r, "date_add / date_sub: exact number of days");
	VF_REACH("accepted");
}

VF_PROOF(extract)
{
	vf_init();
	int64_t j = vf_range(DATE_MIN, DATE_MAX);
	int y, m, d;
	date_get_gregorian(j, &y, &m, &d);
	Str f;
	int which = vf_range(0, 3);
	static char names[4][8] = { "year", "month", "day", "yeah" };
	str_set(&f, names[which], which == 0 ? 4 : which == 1 ? 5 : which == 2 ? 3 : vf_range(1, 4));
	VF_MAY_THROW(which == 3);
	int v = date_extract(j, &f);
	VF_ENSURES(which != 3, "date_extract: unknown field refused");
	VF_ENSURES(v == (which == 0 ? y : which == 1 ? m : d), "date_extract: field");
	VF_REACH("extracted");
}

#ifdef VF_NATIVE
VF_PROOF(calendar)
{
	vf_init();
	int y = 1, m = 1, d = 1;
	for (int64_t j = DATE_MIN; j <= DATE_MAX; j++)
	{
		int y1, m1, d1;
		date_get_gregorian(j, &y1, &m1, &d1);
		VF_ENSURES(y == y1 && m == m1 && d == d1, "date_get_gregorian: calendar");
		VF_ENSURES(date_set_gregorian(y, m, d) == j, "date_set_gregorian: calendar");
		char text[32], expect[32];
		int n = date_get(j, text, sizeof(text));
		snprintf(expect, sizeof(expect), "%04d-%02d-%02d", y, m, d);
		VF_ENSURES(n == 10 && !memcmp(text, expect, 11), "date_get: text");
		Str s;
		str_set(&s, text, n);
		VF_ENSURES(date_set(&s) == j, "date_set: reads back the text");
		if (++d > days_in(y, m))
		{
			d = 1;
			if (++m > 12)
			{
				m = 1;
				y++;
			}
		}
	}
	VF_ENSURES(y == 10000, "calendar: range");
	VF_REACH("calendar");
}
#endif
