//@proof refuse unwind=2 timeout=300 replace=date_get_gregorian covers=date_set_gregorian
//@proof text kind=proof unwind=14 timeout=300 replace=date_set_gregorian covers=date_set
//@assume date_set_gregorian of an existing date is decided by enumerating every day (calendar)
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifdef VF_CBMC
static int days_in(int y, int m);
/* contract of date_get_gregorian (proved by date.next) */
void date_get_gregorian(int64_t j, int* y, int* m, int* d)
__CPROVER_requires(j >= DATE_MIN && j <= DATE_MAX)
__CPROVER_assigns(*y, *m, *d)
__CPROVER_ensures(*y >= 1 && *y <= 9999 && *m >= 1 && *m <= 12 && *d >= 1 && *d <= days_in(*y, *m));
int __CPROVER_uninterpreted_julian(int, int, int);
/* in the contract of date_set only the arguments matter */
int date_set_gregorian(int y, int m, int d)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_julian(y, m, d));
#endif
#include "amelie/runtime/lib/date.c"

static bool leap(int y)
{
	return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}

static int days_in(int y, int m)
{
	if (m == 2)
		return leap(y) ? 29 : 28;
	return (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}

/* a date which is not in the calendar is refused, one which is is accepted */
VF_PROOF(refuse)
{
	vf_init();
	int y = vf_srange(-1000, 20000), m = vf_srange(-1000, 1000), d = vf_srange(-1000, 1000);
	bool ok = y >= 1 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= days_in(y, m);
#ifdef VF_CBMC
	VF_MAY_THROW(true);
#else
	VF_MAY_THROW(!ok);
#endif
	int j = date_set_gregorian(y, m, d);
	VF_ENSURES(ok, "date_set_gregorian: refuses a date which does not exist");
	VF_ENSURES(j >= DATE_MIN && j <= DATE_MAX, "date_set_gregorian: range");
	VF_REACH("accepted");
}

/* every text: accepted iff it is dddd-dd-dd naming a date of the calendar */
static int num(const char* p, int n, bool* ok)
{
	int v = 0;
	for (int i = 0; i < n; i++)
	{
		if (p[i] < '0' || p[i] > '9')
			*ok = false;
		v = v * 10 + (p[i] - '0');
	}
	return v;
}

VF_PROOF(text)
{
	vf_init();
	static char t[13];
	int n = vf_range(0, 12);
	for (int i = 0; i < 12; i++)
	{
		t[i] = (char)vf_u8();
		VF_NATIVE_ONLY(if (vf_range(0, 15)) t[i] = i == 4 || i == 7 ? '-' : '0' + vf_range(0, 9);)
	}
	VF_NATIVE_ONLY(if (vf_range(0, 7)) n = 10;)
	Str s;
	str_set(&s, t, n);
	bool ok = n == 10;
	int y = 0, m = 0, d = 0;
	if (ok)
	{
		y = num(t, 4, &ok);
		m = num(t + 5, 2, &ok);
		d = num(t + 8, 2, &ok);
		ok = ok && t[4] == '-' && t[7] == '-';
#ifndef VF_CBMC
		ok = ok && y >= 1 && m >= 1 && m <= 12 && d >= 1 && d <= days_in(y, m);
#endif
	}
	VF_MAY_THROW(!ok);
	int j = date_set(&s);
	VF_ENSURES(ok, "date_set: accepts only existing dates written as yyyy-mm-dd");
#ifdef VF_CBMC
	VF_ENSURES(j == __CPROVER_uninterpreted_julian(y, m, d), "date_set: the date written");
#else
	VF_ENSURES(j == date_set_gregorian(y, m, d), "date_set: the date written");
#endif
	VF_REACH("accepted");
}

