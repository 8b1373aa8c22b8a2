//@proof parse kind=native fuzz=200000 bound=every_text_of_at_most_4_(thorough:_5)_characters_of_an_alphabet_of_20,_seeded_random_documents_and_mutations covers=json_parse
//@proof export kind=native fuzz=40000 bound=seeded_random_documents_of_at_most_60_values covers=json_export,json_export_pretty,json_export_as,json_parse
//@proof number kind=native fuzz=100000 bound=seeded_random_numbers covers=json_parse,json_export
//@proof nested kind=native fuzz=300 bound=nesting_of_at_most_100000 covers=json_parse
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "amelie/runtime/json/json_parser.c"
#include "amelie/runtime/json/json_export.c"

#ifndef VF_CBMC

/*
 * Reference reader of the documented language: an independent recursive
 * descent over the text, which writes the values it reads.
 *
 *   array  ::= [ [value] [, ...] ]
 *   obj    ::= { ["key": value] [, ...] }
 *   const  ::= int | real | bool | string | null
 *
 * strict is RFC 8259 (for what the export writes).
 */
static const uint8_t* at;
static const uint8_t* end;
static Buf            want;
static bool           strict;
static bool           any;    /* the number may be refused */
static int            deepest;

static void space(void)
{
	while (at < end && (*at == ' ' || *at == '\t' || *at == '\n' || *at == '\r' ||
	       (! strict && (*at == '\v' || *at == '\f'))))
		at++;
}

static bool word(const char* name)
{
	int size = strlen(name);
	if (end - at < size)
		return false;
	for (int i = 0; i < size; i++)
		if ((strict ? at[i] : tolower(at[i])) != name[i])
			return false;
	at += size;
	return true;
}

static int hex4(const uint8_t* p)
{
	if (end - p < 4)
		return -1;
	int v = 0;
	for (int i = 0; i < 4; i++)
	{
		if (! isxdigit(p[i]))
			return -1;
		v = v * 16 + (isdigit(p[i]) ? p[i] - '0' : tolower(p[i]) - 'a' + 10);
	}
	return v;
}

static void put_utf8(Buf* buf, int u)
{
	uint8_t b[4];
	int n;
	if (u < 0x80)
		b[0] = u, n = 1;
	else
	if (u < 0x800)
		b[0] = 0xC0 | u >> 6, b[1] = 0x80 | (u & 63), n = 2;
	else
	if (u < 0x10000)
		b[0] = 0xE0 | u >> 12, b[1] = 0x80 | (u >> 6 & 63), b[2] = 0x80 | (u & 63), n = 3;
	else
		b[0] = 0xF0 | u >> 18, b[1] = 0x80 | (u >> 12 & 63), b[2] = 0x80 | (u >> 6 & 63), b[3] = 0x80 | (u & 63), n = 4;
	buf_write(buf, b, n);
}

/* size of the utf-8 sequence at p, or 0 */
static int utf8(const uint8_t* p)
{
	if (p[0] < 0x80)
		return 1;
	int n = p[0] >= 0xF0 && p[0] < 0xF8 ? 4 : p[0] >= 0xE0 && p[0] < 0xF0 ? 3 : p[0] >= 0xC0 && p[0] < 0xE0 ? 2 : 0;
	if (! n || end - p < n)
		return 0;
	int u = p[0] & (0x7F >> n);
	for (int i = 1; i < n; i++)
	{
		if ((p[i] & 0xC0) != 0x80)
			return 0;
		u = u << 6 | (p[i] & 63);
	}
	static const int least[] = { 0, 0, 0x80, 0x800, 0x10000 };
	if (u < least[n] || u > 0x10FFFF || (u >= 0xD800 && u < 0xE000))
		return 0;
	return n;
}

static bool string(void)
{
	int quote = *at;
	if (quote != '"' && (strict || quote != '\''))
		return false;
	at++;
	Buf out;
	buf_init(&out);
	bool ok = false;
	while (at < end)
	{
		if (*at == quote)
		{
			at++;
			ok = true;
			break;
		}
		if (*at == '\n' || (strict && *at < 0x20))
			break;
		if (*at != '\\')
		{
			int n = utf8(at);
			if (! n)
				break;
			buf_write(&out, at, n);
			at += n;
			continue;
		}
		at++;
		if (at == end || *at == '\n')
			break;
		static const char from[] = "abfnrtv", to[] = "\a\b\f\n\r\t\v";
		const char* s = strchr(from, *at);
		if (*at && s)
		{
			if (strict && (*at == 'a' || *at == 'v'))
				break;
			buf_write(&out, to + (s - from), 1);
			at++;
		} else
		if (*at == 'u')
		{
			int u = hex4(at + 1);
			if (u == -1 || (u >= 0xDC00 && u <= 0xDFFF))
				break;
			at += 5;
			if (u >= 0xD800 && u <= 0xDBFF)
			{
				int low = -1;
				if (end - at >= 2 && at[0] == '\\' && at[1] == 'u')
					low = hex4(at + 2);
				if (low < 0xDC00 || low > 0xDFFF)
					break;
				at += 6;
				u = 0x10000 + (u - 0xD800) * 1024 + low - 0xDC00;
			}
			put_utf8(&out, u);
		} else
		{
			/* any other character stands for itself */
			if (strict && *at != '"' && *at != '\\' && *at != '/')
				break;
			int n = utf8(at);
			if (! n)
				break;
			buf_write(&out, at, n);
			at += n;
		}
	}
	if (ok)
		encode_buf(&want, &out);
	buf_free_memory(&out);
	return ok;
}

static bool number(void)
{
	bool minus = *at == '-';
	const uint8_t* p = at + minus;
	int digits = 0;
	while (p + digits < end && isdigit(p[digits]))
		digits++;
	if (strict && (! digits || (digits > 1 && *p == '0')))
		return false;
	const uint8_t* n = p + digits;
	if (n == end || (*n != '.' && *n != 'e' && *n != 'E'))
	{
		/* integer */
		if (! digits)
			return false;
		unsigned __int128 v = 0;
		for (int i = 0; i < digits; i++)
		{
			v = v * 10 + (p[i] - '0');
			if (v > (unsigned __int128)INT64_MAX + minus)
				return false;
		}
		at = n;
		encode_integer(&want, minus ? -(uint64_t)v : (uint64_t)v);
		return true;
	}
	/* real: an integer part which does not fit, or a text which is too long,
	 * may be refused */
	if (digits > 18 || end - p > 400)
		any = true;
	char text[1024];
	int size = 0;
	while (p + size < end && size < 1000 && p[size] && strchr("0123456789.eE+-", p[size]))
		text[size] = p[size], size++;
	text[size] = 0;
	char* e;
	double d = strtod(text, &e);
	if (e == text || isinf(d))
		return false;
	at = p + (e - text);
	encode_real(&want, minus ? -d : d);
	return true;
}

static bool value(int level)
{
	if (level > deepest)
		deepest = level;
	space();
	if (at == end)
		return false;
	switch (*at) {
	case '[':
		at++;
		encode_array(&want);
		space();
		if (at < end && *at == ']')
			at++;
		else
		for (;;)
		{
			if (! value(level + 1))
				return false;
			space();
			if (at == end || (*at != ',' && *at != ']'))
				return false;
			if (*at++ == ']')
				break;
		}
		encode_array_end(&want);
		return true;
	case '{':
		at++;
		encode_obj(&want);
		space();
		if (at < end && *at == '}')
			at++;
		else
		for (;;)
		{
			space();
			if (at == end || ! string())
				return false;
			space();
			if (at == end || *at++ != ':')
				return false;
			if (! value(level + 1))
				return false;
			space();
			if (at == end || (*at != ',' && *at != '}'))
				return false;
			if (*at++ == '}')
				break;
		}
		encode_obj_end(&want);
		return true;
	case '"':
	case '\'':
		return string();
	case 'n': case 'N':
		encode_null(&want);
		return word("null");
	case 't': case 'T':
		encode_bool(&want, true);
		return word("true");
	case 'f': case 'F':
		encode_bool(&want, false);
		return word("false");
	default:
		if (isdigit(*at) || *at == '-' || (! strict && *at == '.'))
			return number();
	}
	return false;
}

static bool reference(const char* text, int size, bool is_strict)
{
	strict = is_strict;
	any = false;
	deepest = 0;
	at  = (const uint8_t*)text;
	end = at + size;
	buf_reset(&want);
	return value(0);
}

/* one value after another: the same values, whatever the width of the string
 * headers is */
static bool same(Buf* a, Buf* b)
{
	uint8_t* x = a->start;
	uint8_t* y = b->start;
	while (x < a->position && y < b->position)
	{
		if (json_is_string(x))
		{
			if (! json_is_string(y))
				return false;
			Str s, t;
			json_read_string(&x, &s);
			json_read_string(&y, &t);
			if (! str_compare(&s, &t))
				return false;
			continue;
		}
		int n = 1;
		if (json_is_real(x) || json_is_integer(x))
			n = json_sizeof(x);
		if (x + n > a->position || y + n > b->position || memcmp(x, y, n))
			return false;
		x += n;
		y += n;
	}
	return x == a->position && y == b->position;
}

static Json json;
static Buf  out;

static void setup(void)
{
	buf_free_memory(&want);
	buf_free_memory(&out);
	buf_init(&want);
	buf_init(&out);
	json_free(&json);
	json_init(&json);
}

/* contract json_parse: the value the text stands for, or an error; reading ends
 * right behind the value and never goes beyond the text */
static void check_parse(const char* text, int size)
{
	/* exact memory */
	char* copy = malloc(size ? size : 1);
	memcpy(copy, text, size);
	bool ok = reference(copy, size, false);
	json_reset(&json);
	buf_reset(&out);
	Str str;
	str_set(&str, copy, size);
	vf_may_throw = true;
	bool parsed = false;
	if (! error_catch( json_parse(&json, &str, &out); ))
		parsed = true;
	if (parsed || ! any)
		VF_ENSURES(parsed == (ok && deepest <= 100), "json_parse: accepts exactly the language");
	if (parsed)
	{
		VF_ENSURES(json.pos == (char*)at, "json_parse: ends right behind the value");
		VF_ENSURES(same(&out, &want), "json_parse: the value of the text");
	}
	free(copy);
}

#ifdef VF_TIER_THOROUGH
#define EXHAUSTIVE 5
#else
#define EXHAUSTIVE 4
#endif
static const char alphabet[] = "[]{}:,\"'\\u01-.e \nta";

static const char* pieces[] =
{
	"[", "]", "{", "}", ":", ",", "\"", "'", "\\", "\\u00e9", "\\ud83d\\ude00", "\\udc00", "\\ud83d",
	"null", "TRUE", "false", "0", "-1", "12.5", "1e3", "-", ".", ".5", "9223372036854775807",
	"-9223372036854775808", "9223372036854775808", "1e400", "4e-320", "\"a\"", "\"k\":", "'q'", "\"\\n\\t\\\"\"",
	" ", "\n", "\t", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\xc3", "\x01", "\\/", "\\x", "nul", "[]", "{}",
	"18446744073709551616.5", "1.5.5", "1e", "1e+", "00"
};

static void random_document(char* text, int* size, int max, int depth)
{
	switch (depth ? vf_range(0, 9) : 0) {
	case 8:
	{
		text[(*size)++] = '[';
		int n = vf_range(0, 3);
		for (int i = 0; i < n && *size < max; i++)
		{
			if (i)
				text[(*size)++] = ',';
			random_document(text, size, max, depth - 1);
		}
		text[(*size)++] = ']';
		break;
	}
	case 9:
	{
		text[(*size)++] = '{';
		int n = vf_range(0, 3);
		for (int i = 0; i < n && *size < max; i++)
		{
			if (i)
				text[(*size)++] = ',';
			*size += sprintf(text + *size, "\"k%d\" : ", i);
			random_document(text, size, max, depth - 1);
		}
		text[(*size)++] = '}';
		break;
	}
	default:
	{
		static const char* scalars[] =
		{
			"null", "true", "false", "17", "-9", "2.5", "\"text\"", "'it'", "\"\\u20ac\\n\"", "-0.125", "1E2", "\"\\\\\""
		};
		*size += sprintf(text + *size, "%s", scalars[vf_range(0, 11)]);
		break;
	}
	}
}
#endif

VF_PROOF(parse)
{
	vf_init();
	VF_REACH("text");
#ifndef VF_CBMC
	setup();
	/* every short text, once */
	static bool once;
	if (! once)
	{
		once = true;
		int n = sizeof(alphabet) - 1;
		for (int size = 0; size <= EXHAUSTIVE && ! vf_replaying; size++)
		{
			char text[8];
			long total = 1;
			for (int i = 0; i < size; i++)
				total *= n;
			for (long i = 0; i < total; i++)
			{
				long v = i;
				for (int j = 0; j < size; j++)
				{
					text[j] = alphabet[v % n];
					v /= n;
				}
				vf_log[0] = 0;
				vf_put(3);
				vf_put(size);
				for (int j = 0; j < size; j++)
					vf_put((uint8_t)text[j]);
				check_parse(text, size);
			}
		}
		vf_log[0] = 0;
	}
	static char text[4096];
	int size = 0;
	switch (vf_range(0, vf_replaying ? 3 : 2)) {
	case 3:
		size = vf_range(0, 8);
		for (int i = 0; i < size; i++)
			text[i] = vf_u64();
		break;
	case 0:
	{
		int n = vf_range(1, 10);
		for (int i = 0; i < n; i++)
			size += sprintf(text + size, "%s", pieces[vf_range(0, sizeof(pieces) / sizeof(*pieces) - 1)]);
		break;
	}
	case 1:
		size = vf_range(0, 8);
		for (int i = 0; i < size; i++)
			text[i] = vf_bool() ? alphabet[vf_range(0, sizeof(alphabet) - 2)] : (char)vf_u8();
		break;
	case 2:
	{
		random_document(text, &size, 1000, 4);
		if (vf_bool())
		{
			int i = vf_range(0, size - 1);
			if (vf_bool())
				text[i] = alphabet[vf_range(0, sizeof(alphabet) - 2)];
			else
				size = i;
		}
		break;
	}
	}
	check_parse(text, size);
#endif
}

#ifndef VF_CBMC
static void random_value(int depth, int* left)
{
	(*left)--;
	switch (depth && *left > 0 ? vf_range(0, 9) : vf_range(0, 5)) {
	case 0:
		encode_null(&out);
		break;
	case 1:
		encode_bool(&out, vf_bool());
		break;
	case 2:
	case 3:
		encode_integer(&out, (int64_t)vf_u64() >> vf_range(0, 63));
		break;
	case 4:
	{
		/* at most six digits, not a whole number */
		int n = vf_srange(-799, 799);
		encode_real(&out, (n | 1) / 8.0);
		break;
	}
	case 5:
	{
		uint8_t text[128];
		int size = 0;
		int n = vf_range(0, 20);
		for (int i = 0; i < n; i++)
		{
			Buf b;
			buf_init(&b);
			int u = vf_range(0, 3) ? vf_range(0, 0x7F) : vf_range(0, 0x10FFFF);
			if (u >= 0xD800 && u < 0xE000)
				u = 0x20AC;
			put_utf8(&b, u);
			memcpy(text + size, b.start, buf_size(&b));
			size += buf_size(&b);
			buf_free_memory(&b);
		}
		encode_raw(&out, (char*)text, size);
		break;
	}
	case 6:
	case 7:
	{
		encode_array(&out);
		int n = vf_range(0, 5);
		for (int i = 0; i < n; i++)
			random_value(depth - 1, left);
		encode_array_end(&out);
		break;
	}
	default:
	{
		encode_obj(&out);
		int n = vf_range(0, 5);
		for (int i = 0; i < n; i++)
		{
			char key[16];
			int size = sprintf(key, "%d\n\"%d", (int)vf_range(0, 9), i);
			encode_raw(&out, key, size);
			random_value(depth - 1, left);
		}
		encode_obj_end(&out);
		break;
	}
	}
}
#endif

/* contract json_export: RFC 8259 text, which stands for the value exported */
VF_PROOF(export)
{
	vf_init();
	VF_REACH("value");
#ifndef VF_CBMC
	setup();
	int left = 60;
	random_value(4, &left);
	Buf text;
	buf_init(&text);
	bool pretty = vf_bool();
	VF_MAY_THROW(false);
	uint8_t* pos = out.start;
	if (pretty)
		json_export_pretty(&text, NULL, &pos);
	else
		json_export(&text, NULL, &pos);
	VF_ENSURES(pos == out.position, "json_export: ends right behind the value");
	VF_ENSURES(reference((char*)text.start, buf_size(&text), true) && at == text.position, "json_export: writes RFC 8259 text");
	VF_ENSURES(same(&out, &want), "json_export: the text stands for the value");
	Buf back;
	buf_init(&back);
	Str str;
	buf_str(&text, &str);
	json_parse(&json, &str, &back);
	VF_ENSURES(same(&out, &back) && json.pos == (char*)text.position, "json_parse: reads back what json_export wrote");
	VF_ENSURES(json_compare(out.start, back.start) == 0, "json_compare: the value read back is equal");
	buf_free_memory(&back);
	buf_free_memory(&text);
#endif
}

/* integers are exact; reals are exact up to the six digits which are printed */
VF_PROOF(number)
{
	vf_init();
	VF_REACH("number");
#ifndef VF_CBMC
	setup();
	union { double d; uint64_t u; } u;
	u.u = vf_u64();
	if (vf_bool())
		u.u = (u.u & 0x800FFFFFFFFFFFFFull) | vf_range(1023 - 60, 1023 + 60) << 52;
	if (isnan(u.d) || isinf(u.d))
		return;
	int64_t i = (int64_t)vf_u64() >> vf_range(0, 63);
	if (vf_range(0, 9) == 0)
		i = vf_bool() ? INT64_MIN + (int64_t)vf_range(0, 2) : INT64_MAX - (int64_t)vf_range(0, 2);
	encode_array(&out);
	encode_real(&out, u.d);
	encode_integer(&out, i);
	encode_array_end(&out);
	Buf text;
	buf_init(&text);
	VF_MAY_THROW(false);
	uint8_t* pos = out.start;
	json_export(&text, NULL, &pos);
	Buf back;
	buf_init(&back);
	Str str;
	buf_str(&text, &str);
	/* whatever is exported is read back */
	json_parse(&json, &str, &back);
	uint8_t* r = back.start;
	json_read_array(&r);
	double d;
	if (json_is_integer(r))
	{
		int64_t v;
		json_read_integer(&r, &v);
		d = v;
	} else
		json_read_real(&r, &d);
	VF_ENSURES(fabs(d - u.d) <= fabs(u.d) * 6e-6 + 1e-320, "json_export: six digits of a real");
	int64_t v;
	json_read_integer(&r, &v);
	VF_ENSURES(v == i, "json_export: integers are exact");
	buf_free_memory(&back);
	buf_free_memory(&text);
#endif
}

/* deep documents are refused, they would overflow the stack of the export */
VF_PROOF(nested)
{
	vf_init();
	VF_REACH("nested");
#ifndef VF_CBMC
	setup();
	int depth = vf_bool() ? vf_range(1, 99) : vf_range(101, 100000);
	char* text = malloc(depth * 6 + 1);
	int size = 0;
	bool* obj = malloc(depth);
	for (int i = 0; i < depth; i++)
	{
		obj[i] = vf_bool();
		size += sprintf(text + size, "%s", obj[i] ? "{\"\":" : "[");
	}
	text[size++] = '1';
	for (int i = depth - 1; i >= 0; i--)
		text[size++] = obj[i] ? '}' : ']';
	Str str;
	str_set(&str, text, size);
	VF_MAY_THROW(depth > 100);
	json_parse(&json, &str, &out);
	VF_ENSURES(depth <= 100, "json_parse: refuses deep documents");
	free(obj);
	free(text);
#endif
}
