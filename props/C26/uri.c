//@proof parse kind=native fuzz=150000 bound=every_uri_and_endpoint_of_at_most_4_pieces_of_an_alphabet_of_18,_seeded_random_texts_of_up_to_12_pieces covers=uri_parse,uri_parse_endpoint
//@proof export kind=native fuzz=60000 bound=seeded_random_endpoints covers=uri_export,uri_export_arg,uri_parse,endpoint_init,endpoint_reset,endpoint_copy,endpoint_read,endpoint_write
#include <vf.h>
#include <amelie_runtime>
#include <amelie_user.h>
#include <amelie_http.h>
#include <vf_env.h>
#ifndef VF_CBMC
#include "json/json_parser.c"
#include "json/json_export.c"
#include "runtime/opts.c"
#include "http/endpoint.c"
#include "http/uri.c"

/*
 * Reference reading of
 *
 *   [proto://][user[:secret]@]host[:port][/db[/relation[/]]][?name=value[&...]]
 *   amelie://[user[:secret]@][db[/relation[/]]][?name=value[&...]]
 *
 * and of the URL of a request
 *
 *   /v1/db/<db>[/<relation>[/]][?...]   /v1/backup   /v1/repl
 */
enum
{
	F_USER, F_SECRET, F_TOKEN, F_HOST, F_PATH, F_CAPATH, F_CA, F_CERT, F_KEY, F_SERVER,
	F_CTYPE, F_ACCEPT, F_DB, F_REL, F_SERVICE, F_COLUMNS, F_TIMEZONE, F_FORMAT, F_NAME, F_MAX
};
static const char* fields[F_MAX] =
{
	"user", "secret", "token", "host", "path", "tls_capath", "tls_ca", "tls_cert", "tls_key", "tls_server",
	"content_type", "accept", "db", "relation", "service", "columns", "timezone", "format", "name"
};
typedef struct
{
	struct { char text[512]; int size; } f[F_MAX];
	int64_t proto, port, debug;
} Want;
static Want want;

static void put(int f, const char* text, int size)
{
	memcpy(want.f[f].text, text, size);
	want.f[f].size = size;
}

static Opt* opt_at(Endpoint* e, int f)
{
	Opt* all[F_MAX] =
	{
		&e->user, &e->secret, &e->token, &e->host, &e->path, &e->tls_capath, &e->tls_ca, &e->tls_cert, &e->tls_key, &e->tls_server,
		&e->content_type, &e->accept, &e->db, &e->relation, &e->service, &e->columns, &e->timezone, &e->format, &e->name
	};
	return all[f];
}

static void check(Endpoint* e)
{
	for (int f = 0; f < F_MAX; f++)
		VF_ENSURES(str_is(&opt_at(e, f)->string, want.f[f].text, want.f[f].size), "uri: every part is read as written");
	VF_ENSURES((int64_t)e->proto.integer == want.proto && (int64_t)e->port.integer == want.port && (int64_t)e->debug.integer == want.debug,
	           "uri: every part is read as written");
}

static void reset(void)
{
	memset(&want, 0, sizeof(want));
	want.port = 3485;
}

static bool number(const char* p, int n, int64_t* v)
{
	__int128 r = 0;
	for (int i = 0; i < n; i++)
	{
		if (p[i] < '0' || p[i] > '9')
			return false;
		r = r * 10 + p[i] - '0';
		if (r > INT64_MAX)
			return false;
	}
	*v = r;
	return n > 0;
}

static bool percent(char* out, int* n, const char* p, int size)
{
	*n = 0;
	for (int i = 0; i < size; i++)
	{
		if (p[i] != '%')
		{
			out[(*n)++] = p[i];
			continue;
		}
		if (i + 2 >= size || ! isxdigit(p[i + 1]) || ! isxdigit(p[i + 2]))
			return false;
		char hex[3] = { p[i + 1], p[i + 2], 0 };
		out[(*n)++] = strtol(hex, NULL, 16);
		i += 2;
	}
	return true;
}

static bool ref_args(const char* p)
{
	if (! *p)
		return true;
	if (*p++ != '?')
		return false;
	for (;;)
	{
		auto eq = strchr(p, '=');
		if (! eq || eq == p)
			return false;
		char name[512], value[512];
		int  n, v;
		if (! percent(name, &n, p, eq - p))
			return false;
		p = eq + 1;
		int raw = strcspn(p, "&");
		if (! percent(value, &v, p, raw))
			return false;
		p += raw;
		int f = 0;
		while (f < F_MAX && ! ((int)strlen(fields[f]) == n && ! memcmp(fields[f], name, n)))
			f++;
		if (f < F_MAX)
			put(f, value, v);
		else
		if ((n == 4 && ! memcmp(name, "port", 4)) || (n == 5 && ! memcmp(name, "proto", 5)))
		{
			int64_t to;
			if (! number(value, v, &to))
				return false;
			*(n == 4 ? &want.port : &want.proto) = to;
		} else
		if (n == 5 && ! memcmp(name, "debug", 5))
		{
			if (v == 0 || (v == 4 && ! strncasecmp(value, "true", 4)))
				want.debug = 1;
			else
			if (v == 5 && ! strncasecmp(value, "false", 5))
				want.debug = 0;
			else
				return false;
		} else
			return false;
		if (! *p)
			return true;
		p++;
	}
}

static bool ref_path(const char* p)
{
	int n = strcspn(p, "/?");
	if (n)
	{
		put(F_DB, p, n);
		p += n;
		if (*p == '/')
		{
			p++;
			n = strcspn(p, "/?");
			if (n)
			{
				put(F_REL, p, n);
				p += n;
				if (*p == '/')
					p++;
			} else
			if (*p == '/')
				return false;
		}
	}
	return ref_args(p);
}

static bool ref_uri(const char* p)
{
	if (! *p)
		return false;
	if (! strncmp(p, "http://", 7))
		p += 7;
	else
	if (! strncmp(p, "https://", 8))
		p += 8, want.proto = PROTO_HTTPS;
	else
	if (! strncmp(p, "amelie://", 9))
		p += 9, want.proto = PROTO_AMELIE;
	else
	if (strstr(p, "://"))
		return false;
	auto at = strchr(p, '@');
	if (at)
	{
		if (at == p)
			return false;
		int user = strcspn(p, ":@");
		put(F_USER, p, user);
		if (p[user] == ':')
			put(F_SECRET, p + user + 1, at - p - user - 1);
		p = at + 1;
	}
	if (want.proto != PROTO_AMELIE)
	{
		int n;
		if (*p == '[')
		{
			p++;
			n = strcspn(p, "]");
			if (! p[n])
				return false;
			put(F_HOST, p, n);
			p += n + 1;
		} else
		{
			n = strcspn(p, ":,/?");
			put(F_HOST, p, n);
			p += n;
		}
		if (! n)
			return false;
		if (*p == ':')
		{
			p++;
			n = strspn(p, "0123456789");
			if (! number(p, n, &want.port) || want.port > 65535)
				return false;
			p += n;
		}
		if (*p == '/')
			p++;
		else
		if (*p && *p != '?')
			return false;
	}
	return ref_path(p);
}

static bool ref_endpoint(const char* p)
{
	if (! strncmp(p, "/v1/db/", 7))
		return ref_path(p + 7);
	if (! strcmp(p, "/v1/backup"))
		put(F_SERVICE, "backup", 6);
	else
	if (! strcmp(p, "/v1/repl"))
		put(F_SERVICE, "repl", 4);
	else
		return false;
	return true;
}

/* user@ and proto:// behind the place they belong to are not specified */
static bool specified(const char* p)
{
	auto proto = strstr(p, "://");
	if (proto && memchr(p, '/', proto - p))
		return false;
	if (proto && strstr(proto + 3, "://") && strncmp(p, "http", 4) && strncmp(p, "amelie", 6))
		return false;
	if (proto)
		p = proto + 3;
	auto at = strchr(p, '@');
	return ! at || strcspn(p, "/?[]") > (size_t)(at - p);
}

static void check_text(const char* text, bool endpoint)
{
	if (! endpoint && ! specified(text))
		return;
	/* exactly its bytes */
	int   size = strlen(text);
	char* copy = malloc(size ? size : 1);
	memcpy(copy, text, size);
	Str str;
	str_set(&str, copy, size);
	Endpoint e;
	endpoint_init(&e);
	bool raised = error_catch
	(
		if (endpoint)
			uri_parse_endpoint(&e, &str);
		else
			uri_parse(&e, &str);
	);
	free(copy);
	reset();
	bool ok = endpoint ? ref_endpoint(text) : ref_uri(text);
	VF_ENSURES(raised == ! ok, "uri: exactly the well-formed texts are accepted");
	if (ok)
		check(&e);
	/* nothing is left */
	endpoint_reset(&e);
	reset();
	check(&e);
	VF_ENSURES(str_empty(&e.uri.string), "uri: reset");
	endpoint_free(&e);
}

static const char* pieces[] =
{
	"http://", "https://", "amelie://", "ftp://", "a", "db", "/", ":", "@", "?", "=", "&", "[::1]", "8080", "%41", "columns", "format", "port",
	/* more, for the random texts */
	"debug", "true", "FALSE", "%", "%4", "%zz", "65535", "65536", "4294967297", "99999999999999999999", "%26", "%3D", "%ff", "]", "[",
	",", "uri=x", "name", "content_type=", "application/json", "tls_ca=/etc/ca.pem", "host.name", "/v1/db/", "/v1/backup", "/v1/repl", "-1", "user:pa:ss@", "db/rel?columns=a,b&format=",
	"proto=2", "0"
};
#define SHORT 18
#endif

VF_PROOF(parse)
{
	vf_init();
	VF_REACH("text");
#ifndef VF_CBMC
	char text[1024];
	static bool once;
	if (! once && ! vf_replaying)
	{
		once = true;
		for (int n = 0; n <= 4; n++)
		{
			int total = 1;
			for (int i = 0; i < n; i++)
				total *= SHORT;
			for (int i = 0; i < total; i++)
			{
				int v = i, size = 0, at[4];
				for (int j = 0; j < n; j++, v /= SHORT)
					size += sprintf(text + size, "%s", pieces[at[j] = v % SHORT]);
				text[size] = 0;
				for (int endpoint = 0; endpoint < 2; endpoint++)
				{
					vf_log[0] = 0;
					vf_put(endpoint);
					vf_put(n);
					for (int j = 0; j < n; j++)
						vf_put(at[j]);
					if (! endpoint)
						check_text(text, false);
					else
					{
						char url[1100];
						sprintf(url, "/v1/db/%s", text);
						check_text(url, true);
					}
				}
			}
		}
		/* every %xx */
		for (int i = 0; i < 65536; i++)
		{
			if (! (i & 255) || i < 256)
				continue;
			sprintf(text, "/v1/db/x?columns=%%%c%c", i >> 8, i & 255);
			vf_log[0] = 0;
			vf_put(3);
			vf_put(i);
			check_text(text, true);
		}
		vf_log[0] = 0;
	}
	int kind = vf_range(0, vf_replaying ? 3 : 2);
	if (kind == 3)
	{
		int i = vf_range(0, 65535);
		sprintf(text, "/v1/db/x?columns=%%%c%c", i >> 8, i & 255);
		check_text(text, true);
		return;
	}
	int n = vf_range(0, 12), size = 0;
	text[0] = 0;
	for (int i = 0; i < n; i++)
		size += sprintf(text + size, "%s", pieces[vf_range(0, sizeof(pieces) / sizeof(*pieces) - 1)]);
	if (kind == 1)
	{
		char url[1100];
		sprintf(url, "/v1/db/%s", text);
		check_text(url, true);
	} else
		check_text(text, kind == 2);
#endif
}

#ifndef VF_CBMC
static void random_text(int f, const char* not, int least)
{
	char text[64];
	int  n = vf_range(least, vf_range(0, 7) ? 8 : 60);
	for (int i = 0; i < n; i++)
	{
		do
			text[i] = vf_range(0, 3) ? "abz09-_.~ :,;+%&=?/@[]\"'\t\x7f"[vf_range(0, 26)] : (char)vf_range(1, 255);
		while (! text[i] || strchr(not, text[i]));
	}
	put(f, text, n);
}

static void set_all(Endpoint* e)
{
	for (int f = 0; f < F_MAX; f++)
	{
		Str str;
		str_set(&str, want.f[f].text, want.f[f].size);
		opt_string_set(opt_at(e, f), &str);
	}
	opt_int_set(&e->proto, want.proto);
	opt_int_set(&e->port, want.port);
	opt_int_set(&e->debug, want.debug);
}
#endif

VF_PROOF(export)
{
	vf_init();
	VF_REACH("endpoint");
#ifndef VF_CBMC
	reset();
	Endpoint e, with;
	endpoint_init(&e);
	endpoint_init(&with);
	bool uri = vf_bool();
	if (! uri)
	{
		/* all fields, all bytes */
		for (int f = 0; f < F_MAX; f++)
			if (vf_bool())
				random_text(f, "", 1);
		want.proto = vf_range(0, 2);
		want.port  = vf_range(0, 65535);
		want.debug = vf_bool();
		set_all(&e);
		/* to another endpoint with values of its own */
		Want save = want;
		for (int f = 0; f < F_MAX; f++)
			if (vf_bool())
				random_text(f, "", 1);
		set_all(&with);
		want = save;
		if (vf_bool())
			endpoint_copy(&with, &e);
		else
		{
			Buf buf;
			buf_init(&buf);
			endpoint_write(&e, &buf);
			/* the encoded document is self-contained */
			uint8_t* copy = malloc(buf_size(&buf));
			memcpy(copy, buf.start, buf_size(&buf));
			uint8_t* pos = copy;
			endpoint_read(&with, &pos);
			VF_ENSURES(pos == copy + buf_size(&buf), "endpoint: read as a whole");
			free(copy);
			buf_free(&buf);
		}
		check(&with);
		endpoint_free(&e);
		endpoint_free(&with);
		return;
	}
	want.proto = vf_range(0, 2);
	if (vf_bool())
	{
		random_text(F_USER, ":@/?[]", 1);
		if (vf_bool())
			random_text(F_SECRET, "@/?[]", 1);
	}
	if (want.proto != PROTO_AMELIE)
	{
		if (vf_range(0, 3))
			random_text(F_HOST, ":,/?@[]", 1);
		else
			put(F_HOST, "fe80::1:2", 9);
		want.port = vf_range(0, 65535);
	} else
	{
		if (vf_bool())
			random_text(F_CTYPE, "", 1);
		if (vf_bool())
			random_text(F_ACCEPT, "", 1);
	}
	if (vf_bool())
	{
		random_text(F_DB, "/?@", 1);
		if (vf_bool())
			random_text(F_REL, "/?@", 1);
	}
	for (int f = F_CAPATH; f <= F_SERVER; f++)
		if (vf_bool())
			random_text(f, "", 1);
	for (int f = F_COLUMNS; f <= F_FORMAT; f++)
		if (vf_bool())
			random_text(f, "", 1);
	set_all(&e);
	Buf buf;
	buf_init(&buf);
	uri_export(&e, &buf);
	Str str;
	buf_str(&buf, &str);
	uri_parse(&with, &str);
	check(&with);
	buf_free(&buf);
	endpoint_free(&e);
	endpoint_free(&with);
#endif
}
