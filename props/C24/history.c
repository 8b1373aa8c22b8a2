//@proof history kind=native fuzz=6000 ttimeout=300 bound=histories_of_up_to_24_changes,_saves_and_restarts_of_the_configuration_and_the_state covers=opts_define,opts_set,opts_set_json,opts_set_argv,opts_find,opts_copy,opts_list_persistent,opts_list,config_prepare,config_save,config_open,state_prepare,state_save,state_open,endpoint_read,endpoint_write,endpoint_copy,endpoint_reset
//@proof crash kind=native fuzz=3000 ttimeout=300 bound=a_crash,_or_a_failed_call,_at_every_step_of_state_save;_unsynced_data_of_files_is_lost_from_any_byte_on covers=state_save,state_open
//@proof listed kind=native fuzz=3000 bound=every_combination_of_flags_of_up_to_8_options covers=opts_define,opts_list,opts_list_persistent,opts_set
//@assume directory operations reach the disk in order (vfs_rename, vfs_unlink, creation)
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifndef VF_CBMC
#include "json/json_parser.c"
#include "json/json_export.c"
#include "lib/base64.c"
#include "lib/date.c"
#include "lib/interval.c"
#include "lib/timezone.c"
#include "lib/timestamp.c"
#include "lib/uuid.c"
#include "runtime/opts.c"
#include "runtime/config.c"
#include "runtime/state.c"
#include <vf_fs.h>

/*
 * The options as documented: name, type, can it be changed, is it saved,
 * can it be zero.
 */
typedef struct { const char* name; char type; bool change, persist, zero; } Spec;
static const Spec config_spec[] =
{
	{ "uuid", 's', 1, 1, 1 }, { "timezone", 's', 1, 1, 1 }, { "format", 's', 1, 1, 1 },
	{ "log_enable", 'b', 1, 1, 1 }, { "log_to_file", 'b', 1, 1, 1 }, { "log_to_stdout", 'b', 1, 1, 1 },
	{ "log_connections", 'b', 1, 1, 1 }, { "log_options", 'b', 1, 1, 1 },
	{ "tls_capath", 's', 1, 1, 1 }, { "tls_ca", 's', 1, 1, 1 }, { "tls_cert", 's', 1, 1, 1 }, { "tls_key", 's', 1, 1, 1 },
	{ "listen", 'j', 1, 1, 1 },
	{ "limit_send", 'i', 1, 1, 1 }, { "limit_recv", 'i', 1, 1, 1 }, { "limit_write", 'i', 1, 1, 1 },
	{ "frontends", 'i', 1, 1, 0 }, { "backends", 'i', 1, 1, 0 }, { "jobs", 'i', 1, 1, 0 }, { "cpu_affinity", 'b', 1, 1, 1 },
	{ "wal_worker", 'b', 1, 1, 1 }, { "wal_crc", 'b', 1, 1, 1 }, { "wal_sync_on_create", 'b', 1, 1, 1 },
	{ "wal_sync_on_close", 'b', 1, 1, 1 }, { "wal_sync_on_write", 'b', 1, 1, 1 }, { "wal_sync_interval", 's', 1, 1, 1 },
	{ "wal_size", 'i', 1, 1, 1 }, { "wal_truncate", 'i', 1, 1, 1 },
	{ "storage_crc", 'b', 1, 1, 1 }, { "storage_sync", 'b', 1, 1, 1 }, { "catalog_sync", 'b', 1, 1, 1 }, { "checkpoint_interval", 's', 1, 1, 1 },
	{ "repl_readahead", 'i', 1, 1, 0 }, { "repl_reconnect_ms", 'i', 1, 1, 1 },
	{ NULL, 0, 0, 0, 0 }
};
static const Spec state_spec[] =
{
	{ "repl", 'b', 1, 1, 1 }, { "repl_primary", 's', 1, 1, 1 }, { "replicas", 'j', 1, 1, 1 }, { "users", 'j', 1, 1, 1 },
	{ "version", 's', 0, 0, 1 }, { "directory", 's', 0, 0, 1 }, { "lsn", 'i', 0, 0, 1 }, { "psn", 'i', 0, 0, 1 }, { "rsn", 'i', 0, 0, 1 },
	{ "catalog", 'i', 0, 0, 1 }, { "catalog_pending", 'i', 0, 0, 1 }, { "read_only", 'b', 0, 0, 1 }, { "connections", 'i', 0, 0, 1 },
	{ "sent_bytes", 'i', 0, 0, 1 }, { "recv_bytes", 'i', 0, 0, 1 }, { "writes", 'i', 0, 0, 1 }, { "writes_bytes", 'i', 0, 0, 1 }, { "ops", 'i', 0, 0, 1 },
	{ NULL, 0, 0, 0, 0 }
};

/* values: as JSON text, and what is stored */
#define VALUE 700
typedef struct { int64_t n; int size; char data[VALUE]; } Value;
typedef struct { Opts* opts; const Spec* spec; int count; Value values[40]; } Model;

static void encoded(Value* v, const char* text)
{
	/* the documents used for options of type JSON, as they are stored */
	Buf* b = buf_create();
	if (! strcmp(text, "null"))
		encode_null(b);
	else
	if (! strcmp(text, "[]"))
	{
		encode_array(b);
		encode_array_end(b);
	} else
	if (text[0] == '[')
	{
		encode_array(b);
		encode_obj(b);
		encode_raw(b, "host", 4);
		encode_raw(b, "*", 1);
		encode_raw(b, "port", 4);
		encode_integer(b, 3485);
		encode_obj_end(b);
		encode_integer(b, -9223372036854775807ll);
		encode_bool(b, false);
		encode_array_end(b);
	} else
	if (text[0] == '{')
	{
		encode_obj(b);
		encode_raw(b, "a \"user\"", 8);
		encode_obj(b);
		encode_raw(b, "secret", 6);
		encode_raw(b, "\\\x01\n\xc3\xa9", 5);
		encode_obj_end(b);
		encode_obj_end(b);
	}
	v->size = buf_size(b);
	memcpy(v->data, b->start, v->size);
	buf_free(b);
}
static const char* json_texts[] =
{
	"null", "[]", "[ {\"host\": \"*\", \"port\": 3485}, -9223372036854775807 , false ]", "{\"a \\\"user\\\"\" :{\"secret\":\"\\\\\\u0001\\n\xc3\xa9\"}}"
};
static const char* str_texts[] =
{
	"", "a", "UTC", "5 min", "with \"quotes\" and \\", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", "line\nline\ttab\x01\x1f\x7f", "{\"a\": 1}", "=", " ", "true", "null"
};
/* JSON text of a string */
static char* quote(char* p, const char* s, int size)
{
	*p++ = '"';
	for (int i = 0; i < size; i++)
	{
		uint8_t c = s[i];
		if (c == '"' || c == '\\')
			*p++ = '\\', *p++ = c;
		else
		if (c < 32)
			p += sprintf(p, "\\u%04x", c);
		else
			*p++ = c;
	}
	*p++ = '"';
	return p;
}

static Opt* opt_of(Model* m, int i)
{
	Str name;
	str_set_cstr(&name, m->spec[i].name);
	auto opt = opts_find(m->opts, &name);
	VF_ENSURES(opt, "options: an option is found by its name");
	VF_ENSURES(opt->type == (m->spec[i].type == 'b' ? OPT_BOOL : m->spec[i].type == 'i' ? OPT_INT : m->spec[i].type == 's' ? OPT_STRING : OPT_JSON), "options: of its type");
	return opt;
}

/* one value may have more than one encoding (sizes of strings): the shortest one */
static void canonical(Buf* to, uint8_t** pos)
{
	if (json_is_string(*pos))
	{
		Str str;
		json_read_string(pos, &str);
		encode_raw(to, str_of(&str), str_size(&str));
	} else
	if (json_is_array(*pos))
	{
		json_read_array(pos);
		encode_array(to);
		while (! json_read_array_end(pos))
			canonical(to, pos);
		encode_array_end(to);
	} else
	if (json_is_obj(*pos))
	{
		json_read_obj(pos);
		encode_obj(to);
		while (! json_read_obj_end(pos))
			canonical(to, pos);
		encode_obj_end(to);
	} else
	{
		auto start = *pos;
		json_skip(pos);
		buf_write(to, start, *pos - start);
	}
}

static bool json_same(const void* a, int a_size, const void* b, int b_size)
{
	Buf* x = buf_create();
	Buf* y = buf_create();
	uint8_t* pos = (uint8_t*)a;
	canonical(x, &pos);
	bool same = pos == (uint8_t*)a + a_size;
	pos = (uint8_t*)b;
	canonical(y, &pos);
	same = same && pos == (uint8_t*)b + b_size && buf_size(x) == buf_size(y) && !memcmp(x->start, y->start, buf_size(x));
	buf_free(x);
	buf_free(y);
	return same;
}

static bool value_is(Opt* opt, const Value* v)
{
	if (opt->type == OPT_BOOL || opt->type == OPT_INT)
		return (int64_t)opt_int_of(opt) == v->n;
	if (v->size == 0)
		return str_empty(&opt->string);
	if (opt->type == OPT_JSON)
		return ! str_empty(&opt->string) && json_same(str_of(&opt->string), str_size(&opt->string), v->data, v->size);
	return ! str_empty(&opt->string) && (int)str_size(&opt->string) == v->size && !memcmp(str_of(&opt->string), v->data, v->size);
}

/* JSON null and no value are the same thing once saved */
static bool value_is_saved(Opt* opt, const Value* v)
{
	if (value_is(opt, v))
		return true;
	bool none = opt->type == OPT_JSON && (v->size == 0 || (v->size == 1 && (uint8_t)v->data[0] == JSON_NULL));
	return none && (opt_json_empty(opt) || (str_size(&opt->string) == 1 && json_is_null(opt_json_of(opt))));
}

static void value_get(Opt* opt, Value* v)
{
	v->n = v->size = 0;
	if (opt->type == OPT_BOOL || opt->type == OPT_INT)
		v->n = opt_int_of(opt);
	else
	if (! str_empty(&opt->string))
	{
		v->size = str_size(&opt->string);
		VF_ENSURES(v->size <= VALUE, "options: a value is not longer than what was set");
		memcpy(v->data, str_of(&opt->string), v->size);
	}
}

static void model_get(Model* m)
{
	for (m->count = 0; m->spec[m->count].name; m->count++)
		value_get(opt_of(m, m->count), &m->values[m->count]);
}

static void model_check(Model* m, bool saved)
{
	for (int i = 0; i < m->count; i++)
	{
		auto opt = opt_of(m, i);
				VF_ENSURES(saved ? value_is_saved(opt, &m->values[i]) : value_is(opt, &m->values[i]), "options: every option has what was last set");
	}
}

/* a value for the option; false when it is one it does not take */
static bool value_make(const Spec* spec, Value* v, char* text, bool* bare)
{
	char type = spec->type;
	bool wrong = vf_range(0, 9) == 0;
	if (wrong)
	{
		static const char types[] = "bisjrl";
		type = types[vf_range(0, 5)];
	}
	v->n = v->size = 0;
	*bare = false;
	switch (type) {
	case 'b':
		v->n = vf_bool();
		strcpy(text, v->n ? "true" : "false");
		break;
	case 'i':
	{
		static const int64_t ints[] = { 0, 1, -1, 255, 65536, INT64_MAX, INT64_MIN, 67108864 };
		v->n = vf_bool() ? ints[vf_range(0, 7)] : (int64_t)vf_u64() >> vf_range(0, 63);
		sprintf(text, "%" PRIi64, v->n);
		break;
	}
	case 's':
	{
		if (vf_range(0, 3))
		{
			const char* s = str_texts[vf_range(0, 11)];
			v->size = strlen(s);
			memcpy(v->data, s, v->size);
		} else
		{
			v->size = vf_range(0, 9) == 0 ? 600 : vf_range(0, 20);
			lcg = vf_u64();
			for (int i = 0; i < v->size; i++)
				v->data[i] = 1 + lcg_next(126);
		}
		*quote(text, v->data, v->size) = 0;
		break;
	}
	case 'j':
	{
		const char* s = json_texts[vf_range(0, 3)];
		strcpy(text, s);
		encoded(v, s);
		break;
	}
	case 'r':
		strcpy(text, "1.5");
		return false;
	case 'l':
		strcpy(text, "nul");
		return false;
	}
	if (spec->type == 'j' && type != 'j')
		return false;
	return type == spec->type && !(type == 'i' && v->n == 0 && ! spec->zero);
}

/* one object of options; the error, when there is one, is at an entry */
static void set_json(Model* m, bool argv)
{
	static char text[64 * 1024];
	static Value values[6];
	int  at[6];
	int  n = vf_range(0, 4), bad = -1;
	bool update = false;
	char* p = text;
	if (argv)
		p += sprintf(p, "--json=");
	*p++ = '{';
	int count = 0;
	for (; count < n; count++)
	{
		if (count > 0)
			*p++ = ',';
		auto i = vf_range(0, m->count - 1);
		at[count] = i;
		auto spec = &m->spec[i];
		static char value[VALUE * 8];
		bool bare;
		bool good = value_make(spec, &values[count], value, &bare);
		bool known = vf_range(0, 29) != 0;
		p += sprintf(p, " \"%s%s\" : %s", spec->name, known ? "" : "_", value);
		if (bad == -1 && (! known || ! good || ! spec->change))
		{
			/* a json option takes any value */
			if (known && spec->change && spec->type == 'j' && strcmp(value, "nul"))
			{
				bad = -2;
			} else
				bad = count;
		}
		if (bad == -2)
			break;
	}
	if (bad == -2)
		return;
	*p++ = '}';
	*p = 0;
	bool raised, result = false;
	if (argv)
	{
		char* args[] = { text };
		raised = error_catch( result = opts_set_argv(m->opts, 1, args) );
	} else
	{
		Str str;
		str_set_cstr(&str, text);
		raised = error_catch( result = opts_set(m->opts, &str) );
	}
	VF_ENSURES(raised == (bad != -1), "options: an option which is unknown, cannot be changed, or a value it cannot have is an error, and nothing else");
	if (! raised)
	{
		for (int j = 0; j < count; j++)
		{
			auto spec = &m->spec[at[j]];
			auto v    = &m->values[at[j]];
			v->n = values[j].n;
			v->size = values[j].size;
			memcpy(v->data, values[j].data, v->size);
			if (spec->persist)
				update = true;
		}
		VF_ENSURES(result == update, "options: reports that a saved option was set");
		return;
	}
	/* what precedes the error may be set */
	for (int j = 0; j < bad; j++)
	{
		auto opt = opt_of(m, at[j]);
		if (value_is(opt, &m->values[at[j]]))
			continue;
		bool set = false;
		for (int k = 0; k < bad; k++)
			if (at[k] == at[j] && value_is(opt, &values[k]))
				set = true;
		VF_ENSURES(set, "options: has the value set or the one before");
		value_get(opt, &m->values[at[j]]);
	}
}

/* --name=value ... */
static void set_argv(Model* m)
{
	static char text[4][VALUE * 8];
	static Value values[4];
	char* args[4];
	int   at[4];
	int   n = vf_range(0, 4), bad = -1;
	bool  update = false;
	for (int j = 0; j < n; j++)
	{
		auto i = vf_range(0, m->count - 1);
		at[j] = i;
		auto spec = &m->spec[i];
		auto v = &values[j];
		args[j] = text[j];
		v->n = v->size = 0;
		char* p = text[j] + sprintf(text[j], "--%s=", spec->name);
		bool good = true;
		switch (spec->type) {
		case 'b':
		{
			static const char* words[] = { "true", "false", "", "TRUE", "1", "tru", "truee" };
			int w = vf_range(0, 6);
			v->n = w != 1;
			good = w <= 2;
			strcpy(p, words[w]);
			if (w == 2 && vf_bool())
				p[-1] = 0;
			break;
		}
		case 'i':
		{
			static const char* words[] = { "0", "1", "9223372036854775807", "9223372036854775808", "00012", "", "1k", "-5", "99999999999999999999" };
			static const int64_t ns[] = { 0, 1, INT64_MAX, 0, 12 };
			int w = vf_range(0, 8);
			good = w < 5 && w != 3;
			if (good)
				v->n = ns[w];
			if (w == 0 && ! spec->zero)
				good = false;
			/* the sign of a number is not read */
			strcpy(p, words[w]);
			break;
		}
		case 's':
		{
			const char* s = str_texts[vf_range(0, 11)];
			strcpy(p, s);
			v->size = strlen(s);
			memcpy(v->data, s, v->size);
			good = v->size > 0;
			break;
		}
		case 'j':
		{
			int w = vf_range(0, 5);
			const char* s = w < 4 ? json_texts[w] : w == 4 ? "" : "[1,";
			strcpy(p, s);
			good = w < 4;
			if (good)
				encoded(v, s);
			break;
		}
		}
		if (vf_range(0, 29) == 0)
		{
			/* not an option */
			static const char* others[] = { "-a=1", "a", "--", "--=1", "--unknown=1", "--unknown", "--json", "--json=" };
			strcpy(text[j], others[vf_range(0, 7)]);
			good = false;
		}
		if (bad == -1 && (! good || ! spec->change))
			bad = j;
	}
	bool result = false;
	bool raised = error_catch( result = opts_set_argv(m->opts, n, args) );
	VF_ENSURES(raised == (bad != -1), "options: an argument which is unknown, cannot be changed, or a value it cannot have is an error, and nothing else");
	if (raised)
		n = bad;
	for (int j = 0; j < n; j++)
	{
		auto opt = opt_of(m, at[j]);
		auto v   = &m->values[at[j]];
		if (m->spec[at[j]].persist)
			update = true;
		if (raised)
		{
			if (value_is(opt, v))
				continue;
			bool set = false;
			for (int k = 0; k < n; k++)
				if (at[k] == at[j] && value_is(opt, &values[k]))
					set = true;
			VF_ENSURES(set, "options: has the value set or the one before");
			value_get(opt, v);
			continue;
		}
		v->n = values[j].n;
		v->size = values[j].size;
		memcpy(v->data, values[j].data, v->size);
	}
	VF_ENSURES(raised || result == update, "options: reports that a saved option was set");
}

static Runtime rt;
static char    dir[PATH_MAX];

static void scratch_open(void)
{
	if (dir[0])
		return;
	const char* base = getenv("VF_SCRATCH");
	sprintf(dir, "%s/c24.XXXXXX", base ? base : "/tmp");
	VF_REQUIRES(mkdtemp(dir));
}

static void scratch_clean(void)
{
	DIR* d = opendir(dir);
	if (! d)
		return;
	for (struct dirent* e; (e = readdir(d)); )
	{
		char path[PATH_MAX * 2];
		if (e->d_name[0] == '.')
			continue;
		sprintf(path, "%s/%s", dir, e->d_name);
		unlink(path);
	}
	closedir(d);
}

static void scratch_close(void)
{
	scratch_clean();
	rmdir(dir);
	dir[0] = 0;
}

static Config cfg;
static State  st;
static Model  mc, ms;

static void models_open(void)
{
	config_init(&cfg);
	config_prepare(&cfg);
	state_init(&st);
	state_prepare(&st);
	mc.opts = &cfg.opts;
	mc.spec = config_spec;
	ms.opts = &st.opts;
	ms.spec = state_spec;
}
#endif

VF_PROOF(history)
{
	vf_init();
	VF_REACH("history");
#ifndef VF_CBMC
	am_runtime = &rt;
	scratch_open();
	scratch_clean();
	char path_config[PATH_MAX + 32], path_state[PATH_MAX + 32];
	sprintf(path_config, "%s/config.json", dir);
	sprintf(path_state, "%s/state.json", dir);
	models_open();
	model_get(&mc);
	model_get(&ms);
	static Value defaults[40];
	memcpy(defaults, ms.values, sizeof(defaults));
	/* defaults which others depend on */
	VF_ENSURES(opt_int_of(&cfg.wal_crc) && opt_int_of(&cfg.storage_crc) && opt_int_of(&cfg.storage_sync) && opt_int_of(&cfg.catalog_sync) && opt_int_of(&cfg.wal_sync_on_create) && opt_int_of(&cfg.wal_sync_on_close), "options: checksums and syncs are on unless they are turned off");

	int count = vf_range(1, 24);
	for (int i = 0; i < count; i++)
	{
		auto m = vf_range(0, 2) ? &mc : &ms;
		switch (vf_range(0, 9)) {
		case 0: case 1: case 2:
			set_json(m, false);
			break;
		case 3:
			set_json(m, true);
			break;
		case 4: case 5: case 6:
			set_argv(m);
			break;
		case 7:
		{
			/* values set by the server itself */
			opt_int_set(&st.lsn, vf_u64());
			opt_int_add(&st.ops, 5);
			auto lsn = opt_int_of(&st.lsn);
			auto follow = vf_bool() ? lsn + 1 : lsn - 1;
			opt_int_follow(&st.lsn, follow);
			VF_ENSURES(opt_int_of(&st.lsn) == (follow > lsn ? follow : lsn), "options: follow never goes back");
			auto psn = opt_int_of(&st.psn);
			VF_ENSURES(opt_int_set_next(&st.psn) == psn + 1 && opt_int_of(&st.psn) == psn + 1, "options: next is one more");
			Value v;
			for (int j = 0; j < ms.count; j++)
			{
				auto name = state_spec[j].name;
				value_get(opt_of(&ms, j), &v);
				if (! strcmp(name, "lsn"))
					VF_ENSURES((uint64_t)v.n == opt_int_of(&st.lsn), "options: set");
				else
				if (! strcmp(name, "ops"))
					VF_ENSURES(v.n == ms.values[j].n + 5, "options: added");
				else
				if (strcmp(name, "psn"))
					VF_ENSURES(value_is(opt_of(&ms, j), &ms.values[j]), "options: others stay");
			}
			model_get(&ms);
			break;
		}
		case 8:
		{
			/* copy of all values */
			Config copy;
			config_init(&copy);
			config_prepare(&copy);
			opts_copy(&copy.opts, &cfg.opts);
			Model mcopy = mc;
			mcopy.opts = &copy.opts;
			for (int j = 0; j < mcopy.count; j++)
			{
				auto opt = opt_of(&mcopy, j);
				VF_ENSURES(value_is(opt, &mc.values[j]), "options: a copy has every value");
				if (opt->type == OPT_STRING || opt->type == OPT_JSON)
					VF_ENSURES(str_empty(&opt->string) || opt->string.pos != opt_of(&mc, j)->string.pos, "options: of its own");
			}
			config_free(&copy);
			break;
		}
		case 9:
		{
			/* restart */
			config_save(&cfg, path_config);
			state_save(&st, path_state);
			model_check(&mc, false);
			model_check(&ms, false);
			struct stat info;
			VF_ENSURES(stat(path_state, &info) == 0 && (info.st_mode & 077) == 0, "state: nobody else reads the file with the secrets of users");
			config_free(&cfg);
			state_free(&st);
			models_open();
			config_open(&cfg, path_config);
			state_open(&st, path_state);
			for (int j = 0; j < ms.count; j++)
				if (! state_spec[j].persist)
					memcpy(&ms.values[j], &defaults[j], sizeof(Value));
			model_check(&mc, true);
			model_check(&ms, true);
			model_get(&mc);
			model_get(&ms);
			break;
		}
		}
		model_check(&mc, false);
		model_check(&ms, false);
	}
	config_free(&cfg);
	state_free(&st);
	scratch_close();
#endif
}

VF_PROOF(crash)
{
	vf_init();
	VF_REACH("crash");
#ifndef VF_CBMC
	am_runtime = &rt;
	scratch_open();
	scratch_clean();
	char path[PATH_MAX + 32];
	sprintf(path, "%s/state.json", dir);
	lcg = vf_u64();
	models_open();
	model_get(&ms);
	step_n = -1;
	bool exists = vf_range(0, 7) != 0;
	if (exists)
	{
		for (int i = vf_range(0, 3); i >= 0; i--)
			set_json(&ms, false);
		state_save(&st, path);
	}
	/* what an earlier crash may have left */
	if (vf_range(0, 3) == 0)
	{
		static const char* names[] = { "old", "incomplete", "tmp", "new" };
		char other[PATH_MAX + 64];
		sprintf(other, "%s.%s", path, names[vf_range(0, 3)]);
		int fd = open(other, O_CREAT|O_RDWR, 0600);
		VF_REQUIRES(fd >= 0 && write(fd, "{\"us", 4) == 4);
		close(fd);
	}
	static Value before[40];
	memcpy(before, ms.values, sizeof(before));
	for (int i = vf_range(0, 3); i >= 0; i--)
		set_json(&ms, false);

	step_n      = vf_range(0, 12);
	step_crash  = vf_bool();
	steps       = 0;
	files_count = 0;
	lcg         = vf_u64();
	bool raised = false, finished = true;
	pid_t pid = fork();
	VF_REQUIRES(pid >= 0);
	if (pid == 0)
	{
		bool failed = error_catch( state_save(&st, path) );
		/* it is done: power may be lost now */
		if (step_crash || ! failed)
			lose();
		_exit(failed ? 8 : 7);
	}
	int status;
	VF_REQUIRES(waitpid(pid, &status, 0) == pid);
	VF_ENSURES(WIFEXITED(status), "state: saving does not crash");
	int code = WEXITSTATUS(status);
	VF_ENSURES(code == 7 || code == 8 || code == 9, "state: saving does not crash");
	finished = code == 7;
	raised   = code == 8;
	VF_ENSURES(!(raised && step_crash), "state: an error only when a call fails");
	step_n = -1;

	/* restart */
	state_free(&st);
	state_init(&st);
	state_prepare(&st);
	ms.opts = &st.opts;
	if (! exists && ! finished)
	{
		/* nothing was saved before */
	} else
	{
		bool failed = error_catch( state_open(&st, path) );
		VF_ENSURES(! failed, "state: it can be opened after a crash at any moment");
		bool is_new = true, is_old = true;
		for (int i = 0; i < ms.count; i++)
		{
			if (! state_spec[i].persist)
				continue;
			auto opt = opt_of(&ms, i);
			if (! value_is_saved(opt, &ms.values[i]))
				is_new = false;
			if (! value_is_saved(opt, &before[i]))
				is_old = false;
		}
		VF_ENSURES(is_new || is_old, "state: it is the one before or the one saved after a crash");
		VF_ENSURES(is_new || ! finished, "state: once it is saved it stays");
		/* and it is saved again */
		state_save(&st, path);
		state_free(&st);
		state_init(&st);
		state_prepare(&st);
		ms.opts = &st.opts;
		state_open(&st, path);
		for (int i = 0; i < ms.count; i++)
			if (state_spec[i].persist)
				VF_ENSURES(value_is_saved(opt_of(&ms, i), is_new ? &ms.values[i] : &before[i]), "state: saving works after a crash");
	}
	config_free(&cfg);
	state_free(&st);
	scratch_close();
#endif
}

VF_PROOF(listed)
{
	vf_init();
	VF_REACH("listed");
#ifndef VF_CBMC
	am_runtime = &rt;
	/* options of any flags: which are shown, which are saved, which can be set */
	static Opt    opt[8];
	static OptsDef defs[9];
	static char   names[8][4];
	int flags[8], types[8];
	int count = vf_range(0, 8);
	memset(defs, 0, sizeof(defs));
	for (int i = 0; i < count; i++)
	{
		flags[i] = vf_range(0, 31);
		types[i] = vf_range(0, 3);
		sprintf(names[i], "o%d", i);
		static const OptType map[] = { OPT_BOOL, OPT_INT, OPT_STRING, OPT_JSON };
		defs[i] = (OptsDef){ names[i], map[types[i]], flags[i], &opt[i], types[i] == 2 && vf_bool() ? "text" : NULL, types[i] < 2 ? vf_range(0, 1) : 0 };
	}
	Opts opts;
	opts_init(&opts);
	opts_define(&opts, defs);
	for (int all = 0; all <= 1; all++)
	{
		Buf* list = all ? opts_list(&opts) : opts_list_persistent(&opts);
		Buf* want = buf_create();
		encode_obj(want);
		for (int i = 0; i < count; i++)
		{
			bool in = all ? !(flags[i] & (OPT_H|OPT_S)) : !(flags[i] & OPT_E);
			if (! in)
				continue;
			encode_raw(want, names[i], 2);
			switch (types[i]) {
			case 0: encode_bool(want, defs[i].default_int); break;
			case 1: encode_integer(want, defs[i].default_int); break;
			case 2: encode_raw(want, defs[i].default_string ? "text" : "", defs[i].default_string ? 4 : 0); break;
			case 3: encode_null(want); break;
			}
		}
		encode_obj_end(want);
		VF_ENSURES(buf_size(list) == buf_size(want) && !memcmp(list->start, want->start, buf_size(want)), "options: hidden and secret ones are not shown, others are, with their values; those excluded are not saved, others are");
		buf_free(list);
		buf_free(want);
	}
	for (int i = 0; i < count; i++)
	{
		char text[64];
		int64_t n = vf_range(0, 2);
		sprintf(text, "{\"o%d\": %s}", i, types[i] == 0 ? "true" : types[i] == 1 ? (n == 0 ? "0" : "7") : types[i] == 2 ? "\"x\"" : "[]");
		Str str;
		str_set_cstr(&str, text);
		bool update = false;
		bool want = (flags[i] & OPT_C) && !(types[i] == 1 && n == 0 && (flags[i] & OPT_Z));
		bool raised = error_catch( update = opts_set(&opts, &str) );
		VF_ENSURES(raised == ! want, "options: can be changed only when they are such");
		VF_ENSURES(raised || update == !(flags[i] & OPT_E), "options: reports that a saved option was set");
	}
	opts_free(&opts);
#endif
}
