//@proof number kind=proof unwind=12 timeout=200 covers=opt_set_json,opt_encode,opt_int_set,opt_int_of
//@proof text kind=bounded unwind=12 timeout=200 bound=texts_of_0,_1,_3_and_8_bytes covers=opt_set_json,opt_encode,opt_string_set,opt_json_set
//@proof word kind=bounded unwind=23 unwindfn=json_parse:1 timeout=300 bound=texts_of_at_most_20_bytes covers=opt_set
//@proof arg kind=bounded unwind=16 timeout=200 bound=arguments_of_at_most_12_bytes covers=arg_parse
//@flags -DVF_NO_REALLOC
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifdef VF_CBMC
/* json text is the subject of C04 */
void json_init(Json* self) { (void)self; }
void json_free(Json* self) { (void)self; }
void json_parse(Json* self, Str* text, Buf* buf) { (void)self; (void)text; (void)buf; vf_throw(); }
#else
#include "json/json_parser.c"
#endif

static uint8_t mem[64];
static Buf     buf;

static void buf_prepare(void)
{
	buf_init(&buf);
#ifdef VF_CBMC
	buf.start = buf.position = mem;
	buf.end   = mem + sizeof(mem);
#endif
	(void)mem;
}

static int flags_of(void)
{
	return vf_range(0, 31);
}

/* the value stays when the contract raises an error */
static Opt      opt;
static uint64_t before;
static void unchanged(void)
{
	VF_ENSURES(opt.integer == before, "option: an error leaves it as it was");
}

/* bool and int options: any value of the type, no value of another type */
static void number(bool is_bool, int kind)
{
	int  flags = flags_of();
	opt_init(&opt, "a", is_bool ? OPT_BOOL : OPT_INT, flags);
	before = is_bool ? vf_bool() : vf_u64();
	opt_int_set(&opt, before);
	VF_ENSURES((uint64_t)opt_int_of(&opt) == before, "option: it has what was set");

	buf_prepare();
	int64_t value = vf_i64();
	switch (kind) {
	case 0: encode_bool(&buf, value & 1); break;
	case 1: encode_integer(&buf, value); break;
	case 2: encode_null(&buf); break;
	case 3: encode_real(&buf, 1.0); break;
	case 4: encode_raw(&buf, "1", 1); break;
	case 5: encode_array(&buf); encode_array_end(&buf); break;
	case 6: encode_obj(&buf); encode_obj_end(&buf); break;
	}
	bool want = is_bool ? kind == 0 : kind == 1 && !(value == 0 && (flags & OPT_Z));
	vf_on_throw = unchanged;
	vf_may_throw = ! want;
	uint8_t* pos = buf.start;
#ifdef VF_CBMC
	opt_set_json(&opt, &pos);
#else
	if (error_catch( opt_set_json(&opt, &pos) ))
	{
		VF_ENSURES(! want, "option: a value of its type is accepted");
		unchanged();
		buf_free(&buf);
		return;
	}
#endif
	VF_ENSURES(want, "option: a value of another type, or a zero it cannot have, is an error");
	VF_ENSURES(pos == buf.position, "option: its value is read to the end");
	VF_ENSURES((int64_t)opt_int_of(&opt) == (is_bool ? (value & 1) : value), "option: it has what was set");

	/* what is saved is what is read back */
	buf_reset(&buf);
	opt_encode(&opt, &buf);
	pos = buf.start;
	if (is_bool)
	{
		bool b;
		json_read_bool(&pos, &b);
		VF_ENSURES(b == (value & 1), "option: it is written as it is");
	} else
	{
		int64_t n;
		json_read_integer(&pos, &n);
		VF_ENSURES(n == value, "option: it is written as it is");
	}
	VF_ENSURES(pos == buf.position, "option: it is one value");
	VF_NATIVE_ONLY(buf_free(&buf));
}

VF_PROOF(number)
{
	vf_init();
	VF_REACH("number");
	bool is_bool = vf_bool();
	switch (vf_range(0, 6)) {
	case 0: is_bool ? number(true, 0) : number(false, 0); break;
	case 1: is_bool ? number(true, 1) : number(false, 1); break;
	case 2: is_bool ? number(true, 2) : number(false, 2); break;
	case 3: is_bool ? number(true, 3) : number(false, 3); break;
	case 4: is_bool ? number(true, 4) : number(false, 4); break;
	case 5: is_bool ? number(true, 5) : number(false, 5); break;
	case 6: is_bool ? number(true, 6) : number(false, 6); break;
	}
}

#define TEXT 8
static char old_text[2] = "o";
static void unchanged_text(void)
{
	VF_ENSURES(str_size(&opt.string) == 1 && str_of(&opt.string)[0] == 'o', "option: an error leaves it as it was");
}

/* string and json options */
static void text(bool is_json, int kind, int size)
{
	opt_init(&opt, "a", is_json ? OPT_JSON : OPT_STRING, flags_of());
#ifdef VF_CBMC
	str_set(&opt.string, old_text, 1);
#else
	str_dup(&opt.string, old_text, 1);
#endif
	buf_prepare();
	char data[TEXT];
	for (int i = 0; i < TEXT; i++)
		data[i] = vf_u8();
	switch (kind) {
	case 0: encode_bool(&buf, true); break;
	case 1: encode_integer(&buf, 1000); break;
	case 2: encode_null(&buf); break;
	case 3: encode_real(&buf, 1.0); break;
	case 4: encode_raw(&buf, data, size); break;
	case 5: encode_array(&buf); encode_integer(&buf, 7); encode_array_end(&buf); break;
	case 6: encode_obj(&buf); encode_raw(&buf, "k", 1); encode_null(&buf); encode_obj_end(&buf); break;
	}
	bool want = is_json || kind == 4;
	vf_on_throw = unchanged_text;
	vf_may_throw = ! want;
	uint8_t* pos = buf.start;
#ifdef VF_CBMC
	opt_set_json(&opt, &pos);
#else
	if (error_catch( opt_set_json(&opt, &pos) ))
	{
		VF_ENSURES(! want, "option: a value of its type is accepted");
		unchanged_text();
		opt_free(&opt);
		buf_free(&buf);
		return;
	}
#endif
	VF_ENSURES(want, "option: a value of another type is an error");
	VF_ENSURES(pos == buf.position, "option: its value is read to the end");
	int total = buf_size(&buf);
	if (is_json)
	{
		VF_ENSURES(str_size(&opt.string) == total, "option: it has what was set");
		for (int i = 0; i < total; i++)
			VF_ENSURES(str_u8(&opt.string)[i] == buf.start[i], "option: it has what was set");
	} else
	{
		VF_ENSURES(opt.string.pos == NULL ? size == 0 : str_size(&opt.string) == size, "option: it has what was set");
		for (int i = 0; i < size; i++)
			VF_ENSURES(str_of(&opt.string)[i] == data[i], "option: it has what was set");
	}
	/* its own copy: the text it was read from goes away */
	VF_ENSURES(opt.string.pos == NULL || opt.string.allocated, "option: it has its own copy");
	if (opt.string.pos == NULL)
	{
		VF_NATIVE_ONLY(buf_free(&buf));
		return;
	}

	/* what is saved is what was set */
	opt_encode(&opt, &buf);
	VF_ENSURES(buf_size(&buf) == total * 2, "option: it is written as it is");
	for (int i = 0; i < total; i++)
		VF_ENSURES(buf.start[total + i] == buf.start[i], "option: it is written as it is");
	VF_NATIVE_ONLY(opt_free(&opt));
	VF_NATIVE_ONLY(buf_free(&buf));
}

VF_PROOF(text)
{
	vf_init();
	VF_REACH("text");
	bool is_json = vf_bool();
	switch (vf_range(0, 9)) {
	case 0: is_json ? text(true, 0, 0) : text(false, 0, 0); break;
	case 1: is_json ? text(true, 1, 0) : text(false, 1, 0); break;
	case 2: is_json ? text(true, 2, 0) : text(false, 2, 0); break;
	case 3: is_json ? text(true, 3, 0) : text(false, 3, 0); break;
	case 4: is_json ? text(true, 5, 0) : text(false, 5, 0); break;
	case 5: is_json ? text(true, 6, 0) : text(false, 6, 0); break;
	case 6: is_json ? text(true, 4, 0) : text(false, 4, 0); break;
	case 7: is_json ? text(true, 4, 1) : text(false, 4, 1); break;
	case 8: is_json ? text(true, 4, 3) : text(false, 4, 3); break;
	case 9: is_json ? text(true, 4, TEXT) : text(false, 4, TEXT); break;
	}
}

#define WORD 20
/* bool and int options from the command line */
VF_PROOF(word)
{
	vf_init();
	VF_REACH("word");
	bool is_bool = vf_bool();
	int  flags = flags_of();
	opt_init(&opt, "a", is_bool ? OPT_BOOL : OPT_INT, flags);
	before = is_bool ? vf_bool() : vf_u64();
	opt_int_set(&opt, before);

	static char data[WORD];
	int  size = vf_range(0, WORD);
#ifdef VF_CBMC
	for (int i = 0; i < WORD; i++)
		data[i] = vf_u8();
#else
	int mode = vf_range(0, 3);
	const char* word = vf_bool() ? "true" : "false";
	if (mode == 0)
		size = strlen(word);
	for (int i = 0; i < WORD; i++)
		data[i] = mode == 0 ? word[i % 5] : mode == 1 ? (char)vf_u8() : (char)('0' + vf_range(0, 9));
	if (mode == 3 && vf_bool())
		data[vf_range(0, WORD - 1)] = vf_u8();
#endif
	/* the number, when it is one */
	bool     digits = size > 0, fits = true;
	uint64_t number = 0;
	for (int i = 0; i < size; i++)
	{
		if (data[i] < '0' || data[i] > '9')
		{
			digits = false;
			break;
		}
		int d = data[i] - '0';
		if (number > (INT64_MAX - d) / 10)
		{
			fits = false;
			break;
		}
		number = number * 10 + d;
	}
	bool yes = size == 0 || (size == 4 && data[0] == 't' && data[1] == 'r' && data[2] == 'u' && data[3] == 'e');
	bool no  = size == 5 && data[0] == 'f' && data[1] == 'a' && data[2] == 'l' && data[3] == 's' && data[4] == 'e';
	bool want = is_bool ? yes || no : digits && fits && !(number == 0 && (flags & OPT_Z));

	Str value;
	str_set(&value, data, size);
	vf_on_throw = unchanged;
	vf_may_throw = ! want;
#ifdef VF_CBMC
	opt_set(&opt, &value);
#else
	if (error_catch( opt_set(&opt, &value) ))
	{
		VF_ENSURES(! want, "option: a value of its type is accepted");
		unchanged();
		return;
	}
#endif
	VF_ENSURES(want, "option: text that is not a value of its type is an error");
	VF_ENSURES((uint64_t)opt_int_of(&opt) == (is_bool ? yes : number), "option: it has what was set");
}

#define ARG 12
/* --name, --name=, --name=value */
VF_PROOF(arg)
{
	vf_init();
	VF_REACH("arg");
	static char data[ARG + 1];
	static const char chars[] = "--==ab \0\xff";
	for (int i = 0; i < ARG; i++)
	{
#ifdef VF_CBMC
		(void)chars;
		data[i] = vf_u8();
#else
		data[i] = i < 2 && vf_range(0, 7) ? '-' : chars[vf_range(0, 8)];
#endif
	}
	data[ARG] = 0;
	int size = 0;
	while (data[size])
		size++;
	int eq = 2;
	while (eq < size && data[eq] != '=')
		eq++;
	bool want = size > 2 && data[0] == '-' && data[1] == '-' && eq > 2;

	Str name, value;
	str_init(&name);
	str_init(&value);
	int rc = arg_parse(data, &name, &value);
	VF_ENSURES((rc == 0) == want, "argument: refused exactly when it is not --name or --name=value");
	if (rc != 0)
		return;
	VF_ENSURES(str_of(&name) == data + 2 && str_size(&name) == eq - 2, "argument: its name ends at the first =");
	int left = eq < size ? size - eq - 1 : 0;
	VF_ENSURES(value.pos == NULL ? left == 0 : str_size(&value) == left, "argument: its value is the rest");
	VF_ENSURES(left == 0 || str_of(&value) == data + eq + 1, "argument: its value is the rest");
}
