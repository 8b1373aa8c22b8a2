//@proof compare kind=bounded unwind=8 timeout=200 bound=texts_of_up_to_6_bytes covers=str_is,str_is_prefix,str_is_case,str_is_prefix_case,str_compare,str_compare_fn,str_compare_prefix
//@proof split kind=bounded unwind=8 timeout=200 bound=texts_of_up_to_6_bytes covers=str_split,str_chr,str_chomp,str_chomp_chr,str_gets
//@proof words kind=native fuzz=100000 covers=str_arg,str_shrink,str_dup,str_copy,str_split,str_gets,str_compare_fn,str_is_case,str_is_prefix_case
//@proof number kind=bounded unwind=22 timeout=300 bound=texts_of_up_to_20_bytes covers=str_toint qkind=native fuzz=200000
//@proof overflow32 kind=proof timeout=100 covers=int32_add_overflow,int32_sub_overflow,int64_add_overflow,int64_sub_overflow
//@proof overflow kind=native fuzz=200000 covers=int32_mul_overflow,int32_mul_add_overflow,int64_mul_overflow,int64_mul_add_overflow,double_add_overflow,double_mul_overflow,double_div_overflow
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include <math.h>

enum { MAX = 6 };
static char ta[MAX + 1], tb[MAX + 1];
static Str  a, b;

static void make(void)
{
	int n = vf_range(0, MAX), m = vf_range(0, MAX);
	for (int i = 0; i < MAX; i++)
	{
		ta[i] = (char)vf_u8();
		tb[i] = (char)vf_u8();
		VF_NATIVE_ONLY(if (vf_range(0, 3)) ta[i] = "aAbB \n,z"[vf_range(0, 7)]; if (vf_range(0, 3)) tb[i] = vf_bool() ? ta[i] : "aAbB \n,z"[vf_range(0, 7)];)
	}
	VF_NATIVE_ONLY(if (vf_bool()) m = n;)
	str_set(&a, ta, n);
	str_set(&b, tb, m);
}

static char lower(char c)
{
	return c >= 'A' && c <= 'Z' ? c + 32 : c;
}

static bool is_space(char c)
{
	return c == ' ' || (c >= 9 && c <= 13);
}

#ifdef VF_CBMC
int strncasecmp(const char* x, const char* y, size_t n)
{
	for (size_t i = 0; i < n; i++)
	{
		int c = (uint8_t)lower(x[i]) - (uint8_t)lower(y[i]);
		if (c || ! x[i])
			return c;
	}
	return 0;
}
#endif

VF_PROOF(compare)
{
	vf_init();
	make();
	int n = str_size(&a), m = str_size(&b);
	bool same = n == m, same_case = n == m, prefix = n >= m, prefix_case = n >= m;
	int order = 0;
	for (int i = 0; i < MAX; i++)
	{
		bool both = i < n && i < m;
		if (both && order == 0)
			order = ((uint8_t)ta[i] > (uint8_t)tb[i]) - ((uint8_t)ta[i] < (uint8_t)tb[i]);
		if (both && ta[i] != tb[i])
			same = prefix = false;
		if (both && lower(ta[i]) != lower(tb[i]))
			same_case = prefix_case = false;
		/* C texts have no NUL inside */
		if (both)
			VF_REQUIRES(ta[i] && tb[i]);
	}
	if (order == 0)
		order = (n > m) - (n < m);
	VF_ENSURES(str_compare(&a, &b) == same && str_is(&a, tb, m) == same, "str_compare: same bytes");
	VF_ENSURES(str_compare_prefix(&a, &b) == prefix && str_is_prefix(&a, tb, m) == prefix, "str_is_prefix: starts with the bytes");
	VF_ENSURES(str_compare_case(&a, &b) == same_case && str_is_case(&a, tb, m) == same_case, "str_is_case: same letters");
	VF_ENSURES(str_compare_prefix_case(&a, &b) == prefix_case && str_is_prefix_case(&a, tb, m) == prefix_case, "str_is_prefix_case: starts with the letters");
	int rc = str_compare_fn(&a, &b);
	VF_ENSURES((rc > 0) - (rc < 0) == order, "str_compare_fn: byte order, then size");
	VF_ENSURES(str_empty(&a) == (n == 0), "str_empty");
	VF_REACH("compared");
}

VF_PROOF(split)
{
	vf_init();
	make();
	int n = str_size(&a);
	char c = (char)vf_u8();
	VF_NATIVE_ONLY(if (vf_bool()) c = ',';)
	int at = 0;
	while (at < n && ta[at] != c)
		at++;
	VF_ENSURES(str_chr(&a, c) == (at < n ? ta + at : NULL), "str_chr: the first");
	Str chunk;
	VF_ENSURES(str_split(&a, &chunk, c) == (at < n), "str_split: found");
	VF_ENSURES(chunk.pos == ta && chunk.end == ta + at, "str_split: what is before it");
	VF_ENSURES(a.pos == ta && a.end == ta + n, "str_split: the text stays");

	/* lines */
	int line = 0;
	while (line < n && ta[line] != '\n')
		line++;
	Str s = a, l;
	Str* rc = str_gets(&s, &l);
	VF_ENSURES((rc != NULL) == (n > 0), "str_gets: a line");
	if (rc)
	{
		VF_ENSURES(l.pos == ta && l.end == ta + line, "str_gets: up to the line break");
		VF_ENSURES(s.pos == ta + line + (line < n) && s.end == a.end, "str_gets: goes on behind it");
	}
	s = a;
	str_chomp_chr(&s, c);
	VF_ENSURES(s.pos == ta && s.end == ta + n - (n && ta[n - 1] == c), "str_chomp_chr: the last");
	VF_REACH("split");
}

/* value of the digits, or refused */
VF_PROOF(number)
{
	vf_init();
	static char t[21];
	int n = vf_range(0, 20);
	bool ok = true;
	unsigned __int128 value = 0;
	for (int i = 0; i < 20; i++)
	{
		t[i] = (char)vf_u8();
		VF_NATIVE_ONLY(if (vf_range(0, 99)) t[i] = i == 0 ? vf_range('0', '9') : vf_range(0, 3) ? vf_range('0', '9') : "9223372036854775807"[i % 19];)
	}
	VF_NATIVE_ONLY(if (vf_bool()) n = vf_range(18, 20); if (vf_range(0, 3) == 0) { memcpy(t, "9223372036854775807", 19); t[18] = vf_range('0', '9'); t[vf_range(0, 18)] = vf_range('0', '9'); if (vf_bool()) n = 19; })
	for (int i = 0; i < 20; i++)
		if (i < n)
		{
			if (t[i] < '0' || t[i] > '9')
				ok = false;
			value = value * 10 + (uint8_t)(t[i] - '0');
		}
	if (value > INT64_MAX)
		ok = false;
	Str s;
	str_set(&s, t, n);
	int64_t v;
	int rc = str_toint(&s, &v);
	VF_ENSURES((rc == 0) == ok, "str_toint: refuses what is no number and what does not fit");
	if (ok)
		VF_ENSURES(v == (int64_t)value, "str_toint: value of the digits");
	VF_REACH("number");
}

VF_PROOF(overflow32)
{
	vf_init();
	int32_t x = vf_i32(), y = vf_i32(), r;
	int64_t wide = (int64_t)x + y;
	VF_ENSURES(int32_add_overflow(&r, x, y) == (wide != (int32_t)wide) && r == (int32_t)wide, "int32_add_overflow");
	wide = (int64_t)x - y;
	VF_ENSURES(int32_sub_overflow(&r, x, y) == (wide != (int32_t)wide) && r == (int32_t)wide, "int32_sub_overflow");
	int64_t lx = vf_i64(), ly = vf_i64(), lr;
	bool over = (ly > 0 && lx > INT64_MAX - ly) || (ly < 0 && lx < INT64_MIN - ly);
	VF_ENSURES(int64_add_overflow(&lr, lx, ly) == over && lr == (int64_t)((uint64_t)lx + (uint64_t)ly), "int64_add_overflow");
	over = (ly < 0 && lx > INT64_MAX + ly) || (ly > 0 && lx < INT64_MIN + ly);
	VF_ENSURES(int64_sub_overflow(&lr, lx, ly) == over && lr == (int64_t)((uint64_t)lx - (uint64_t)ly), "int64_sub_overflow");
	VF_REACH("overflow");
}

#ifndef VF_CBMC
static int64_t some(void)
{
	int64_t v = vf_i64();
	switch (vf_range(0, 4)) {
	case 0: return v >> vf_range(0, 63);
	case 1: return INT64_MIN + vf_range(0, 3);
	case 2: return INT64_MAX - vf_range(0, 3);
	case 3: return (int64_t)vf_range(0, 20) - 10;
	}
	return v;
}

static double some_double(void)
{
	switch (vf_range(0, 6)) {
	case 0: return 0.0;
	case 1: return vf_bool() ? INFINITY : -INFINITY;
	case 2: return 1.7e308;
	case 3: return 1e-308;
	case 4: return -3.0e200;
	case 5: return (double)vf_i64();
	}
	uint64_t v = vf_u64();
	double d;
	memcpy(&d, &v, 8);
	return isnan(d) ? 1.0 : d;
}

VF_PROOF(overflow)
{
	vf_init();
	int64_t x = some(), y = some(), z = some(), r;
	__int128 w = (__int128)x * y;
	VF_ENSURES(int64_mul_overflow(&r, x, y) == (w != (int64_t)w), "int64_mul_overflow");
	VF_ENSURES(w != (int64_t)w || r == (int64_t)w, "int64_mul_overflow: product");
	bool over = w != (int64_t)w || w + z != (int64_t)(w + z);
	VF_ENSURES(int64_mul_add_overflow(&r, x, y, z) == over && (over || r == (int64_t)(w + z)), "int64_mul_add_overflow");
	int32_t sx = x, sy = y, sz = z, sr;
	int64_t sw = (int64_t)sx * sy;
	VF_ENSURES(int32_mul_overflow(&sr, sx, sy) == (sw != (int32_t)sw) && sr == (int32_t)sw, "int32_mul_overflow");
	over = sw != (int32_t)sw || sw + sz != (int32_t)(sw + sz);
	VF_ENSURES(int32_mul_add_overflow(&sr, sx, sy, sz) == over && (over || sr == (int32_t)(sw + sz)), "int32_mul_add_overflow");
	double a = some_double(), b = some_double(), d;
	bool fin = isfinite(a) && isfinite(b);
	bool o = double_add_overflow(&d, a, b);
	VF_ENSURES(o == (fin && isinf(a + b)) && (d == a + b || isnan(a + b)), "double_add_overflow");
	o = double_sub_overflow(&d, a, b);
	VF_ENSURES(o == (fin && isinf(a - b)) && (d == a - b || isnan(a - b)), "double_sub_overflow");
	o = double_mul_overflow(&d, a, b);
	VF_ENSURES(o == ((fin && isinf(a * b)) || (a * b == 0 && a != 0 && b != 0)), "double_mul_overflow");
	if (b != 0)
	{
		o = double_div_overflow(&d, a, b);
		VF_ENSURES(o == ((isfinite(a) && isinf(a / b)) || (a / b == 0 && a != 0 && ! isinf(b))), "double_div_overflow");
	}
	VF_REACH("overflow");
}

VF_PROOF(words)
{
	vf_init();
	int n = vf_range(0, 12);
	char* t = malloc(n ? n : 1);
	for (int i = 0; i < n; i++)
		t[i] = vf_bool() ? " \t\n"[vf_range(0, 2)] : 'a' + vf_range(0, 3);
	/* words */
	Str s, w;
	str_set(&s, t, n);
	int pos = 0;
	for (;;)
	{
		while (pos < n && is_space(t[pos]))
			pos++;
		int start = pos;
		while (pos < n && ! is_space(t[pos]))
			pos++;
		str_arg(&s, &w);
		if (start == pos)
		{
			VF_ENSURES(str_empty(&w), "str_arg: no more words");
			break;
		}
		VF_ENSURES(w.pos == t + start && w.end == t + pos && s.pos == t + pos, "str_arg: the next word");
	}
	str_set(&s, t, n);
	str_shrink(&s);
	int l = 0, r = n;
	while (l < n && is_space(t[l]))
		l++;
	while (r > l && is_space(t[r - 1]))
		r--;
	VF_ENSURES(str_size(&s) == r - l && (l == r || s.pos == t + l), "str_shrink: no spaces around");
	/* lines put together are the text */
	str_set(&s, t, n);
	int total = 0;
	Str line;
	while (str_gets(&s, &line))
	{
		VF_ENSURES(line.pos == t + total, "str_gets: next line");
		total += str_size(&line);
		if (total < n)
		{
			VF_ENSURES(t[total] == '\n', "str_gets: up to the line break");
			total++;
		}
	}
	VF_ENSURES(total == n, "str_gets: all lines");
	str_set(&s, t, n);
	Str d;
	str_copy(&d, &s);
	VF_ENSURES(str_compare(&d, &s) && d.pos != s.pos && d.end[0] == 0 && d.allocated, "str_copy: a copy");
	memset(t, '!', n);
	str_free(&d);
	VF_ENSURES(d.pos == NULL && str_empty(&d) && ! d.allocated, "str_free");
	free(t);
	VF_REACH("words");
}
#endif
