//@proof stream kind=native fuzz=60000 bound=seeded_random_streams_of_up_to_6_messages_in_random_pieces covers=http_read,http_read_content,http_read_content_limit,http_find,http_begin_request,http_begin_reply,http_end,readahead_read,readahead_pushback,uri_parse_endpoint
//@proof header kind=native fuzz=150000 bound=seeded_random_header_texts_of_at_most_1000_bytes_in_random_pieces covers=http_read,http_find,http_read_content
#include <vf.h>
#include <amelie_runtime>
#include <amelie_user.h>
#include <amelie_http.h>
#include <vf_env.h>
#ifndef VF_CBMC
#include "json/json_parser.c"
#include "json/json_export.c"
#include "runtime/opts.c"
#include "http/endpoint.c"
#include "http/uri.c"
#include "http/http.c"

/* the network: bytes arrive in any pieces, never more than asked for */
static uint8_t stream[1 << 17];
static int     stream_size, stream_pos, piece;

int tcp_read(Tcp* self, Buf* buf, int size)
{
	(void)self;
	buf_reserve(buf, size);
	int left = stream_size - stream_pos;
	if (left == 0)
		return 0;
	int n = left < size ? left : size;
	switch (piece) {
	case 0: n = 1; break;
	case 1: n = vf_range(1, n < 64 ? n : 64); break;
	case 2: n = vf_range(1, n); break;
	}
	buf_write(buf, stream + stream_pos, n);
	stream_pos += n;
	return n;
}

/* a message, as sent */
typedef struct
{
	char    text[3][300];        /* method url version / version code message */
	int     headers;
	char    name[16][64], value[16][200];
	uint8_t content[4000];
	int     content_size;
} Message;
static Message sent[7];

static void put(const void* data, int size)
{
	memcpy(stream + stream_size, data, size);
	stream_size += size;
}

static void word(char* out, int least, int most, bool spaces)
{
	int n = vf_range(least, most);
	for (int i = 0; i < n; i++)
		out[i] = spaces ? "abcXYZ019/:;,. -_~%&=?+\"\xc3\xa9"[vf_range(0, 24)] : "abcXYZ019-_.~"[vf_range(0, 12)];
	out[n] = 0;
}

static void add_header(Message* m, const char* name, const char* value)
{
	strcpy(m->name[m->headers], name);
	strcpy(m->value[m->headers], value);
	m->headers++;
}

static void any_content(Message* m)
{
	static const int sizes[] = { 0, 1, 2, 255, 256, 257, 511, 512, 3999, 4000 };
	m->content_size = vf_bool() ? sizes[vf_range(0, 9)] : (int)vf_range(0, 40);
	uint32_t seed = vf_u32();
	for (int i = 0; i < m->content_size; i++)
	{
		seed = seed * 1664525 + 1013904223;
		m->content[i] = i % 7 ? seed >> 24 : "\r\n: "[seed >> 30];
	}
	/* it may look like a request */
	if (m->content_size > 60 && vf_bool())
		memcpy(m->content + m->content_size - 50, "\r\n\r\nPOST /v1/db/x HTTP/1.1\r\nContent-Length: 5\r\n\r\n", 50);
}

static int header_size(Message* m)
{
	int n = strlen(m->text[0]) + strlen(m->text[1]) + strlen(m->text[2]) + 6;
	for (int i = 0; i < m->headers; i++)
		n += strlen(m->name[i]) + strlen(m->value[i]) + 4;
	return n;
}

/* written here */
static void send_own(Message* m)
{
	memset(m, 0, offsetof(Message, content));
	word(m->text[0], 1, 10, false);
	word(m->text[1], 1, 100, false);
	word(m->text[2], 1, 20, false);
	any_content(m);
	int n = vf_range(0, 8), at = vf_range(0, 8);
	for (int i = 0; i < n; i++)
	{
		if (i == at || (i == n - 1 && at >= n && m->content_size))
		{
			char size[32];
			sprintf(size, "%s%d", vf_range(0, 3) ? "" : "00", m->content_size);
			static const char* names[] = { "Content-Length", "content-length", "CONTENT-LENGTH", "Content-length" };
			add_header(m, names[vf_range(0, 3)], size);
			at = -1;
			continue;
		}
		char name[32], value[64];
		word(name, 1, 16, false);
		word(value, 0, vf_range(0, 3) ? 20 : 60, true);
		if (! strcasecmp(name, "content-length"))
			name[0] = 'x';
		add_header(m, name, value);
	}
	if (at >= 0)
		m->content_size = 0;
	/* small enough to be accepted, whatever the pieces */
	while (header_size(m) > 500)
	{
		m->headers--;
		if (! strcasecmp(m->name[m->headers], "content-length"))
			m->content_size = 0;
	}
	for (int i = 0; i < 3; i++)
	{
		put(m->text[i], strlen(m->text[i]));
		put(i < 2 ? " " : "\r\n", i < 2 ? 1 : 2);
	}
	for (int i = 0; i < m->headers; i++)
	{
		put(m->name[i], strlen(m->name[i]));
		put(": ", 2);
		put(m->value[i], strlen(m->value[i]));
		put("\r\n", 2);
	}
	put("\r\n", 2);
	put(m->content, m->content_size);
}

static void field(Opt* opt, const char* chars, int most)
{
	char text[64];
	int  n = vf_range(1, most);
	for (int i = 0; i < n; i++)
		text[i] = chars ? chars[vf_range(0, strlen(chars) - 1)] : (char)vf_range(1, 255);
	opt_string_set_raw(opt, text, n);
}

/* written by the code, to be read by the other side */
static Endpoint eps[7];
static bool     by_code[7], reply[7];

static void send_code(Message* m, int i)
{
	memset(m, 0, offsetof(Message, content));
	auto e = &eps[i];
	auto plain = "abcXYZ019-_.~";
	any_content(m);
	Http http;
	http_init(&http);
	Buf* buf;
	if (reply[i])
	{
		static const char* msgs[] = { "200 OK", "204 No Content", "400 Bad Request", "413 Payload Too Large" };
		auto msg = msgs[vf_range(0, 3)];
		strcpy(m->text[0], "HTTP/1.1");
		memcpy(m->text[1], msg, 3);
		strcpy(m->text[2], msg + 4);
		if (vf_bool())
		{
			field(&e->accept, plain, 30);
			add_header(m, "Content-Type", str_of(&e->accept.string));
		}
		buf = http_begin_reply(&http, e, (char*)msg, strlen(msg), m->content_size);
	} else
	{
		switch (vf_range(0, 5)) {
		case 0: opt_string_set_raw(&e->service, "repl", 4); break;
		case 1: opt_string_set_raw(&e->service, "backup", 6); break;
		default:
			field(&e->db, plain, 20);
			if (vf_bool())
				field(&e->relation, plain, 20);
			if (vf_bool())
				field(&e->columns, NULL, 14);
			if (vf_bool())
				field(&e->timezone, NULL, 14);
			if (vf_bool())
				field(&e->format, "abcXYZ019-_.~ /&?=+%\r\n:", 14);
		}
		if (vf_bool())
		{
			field(&e->token, plain, 40);
			char value[64];
			sprintf(value, "Bearer %s", str_of(&e->token.string));
			add_header(m, "Authorization", value);
		}
		if (vf_bool())
		{
			field(&e->content_type, "abcXYZ/;= ", 20);
			add_header(m, "Content-Type", str_of(&e->content_type.string));
		}
		if (vf_bool())
		{
			field(&e->accept, "abcXYZ/;= ", 20);
			add_header(m, "Accept", str_of(&e->accept.string));
		}
		strcpy(m->text[0], "POST");
		strcpy(m->text[2], "HTTP/1.1");
		buf = http_begin_request(&http, e, m->content_size);
	}
	http_end(buf);
	put(buf->start, buf_size(buf));
	put(m->content, m->content_size);
	http_free(&http);
}
#endif

VF_PROOF(stream)
{
	vf_init();
	VF_REACH("messages");
#ifndef VF_CBMC
	stream_size = stream_pos = 0;
	piece = vf_range(0, 3);
	int count = vf_range(1, 6);
	for (int i = 0; i < count; i++)
	{
		by_code[i] = vf_bool();
		reply[i]   = vf_bool();
		endpoint_init(&eps[i]);
		if (by_code[i])
			send_code(&sent[i], i);
		else
			send_own(&sent[i]);
	}
	/* the connection may break */
	bool cut = vf_range(0, 3) == 0;
	if (cut)
		stream_size = vf_range(0, stream_size);

	Readahead readahead;
	static const int sizes[] = { 1, 7, 255, 256, 257, 4096, 16384 };
	readahead_init(&readahead, NULL, sizes[vf_range(0, 6)]);
	Http http;
	http_init(&http);
	Buf content;
	buf_init(&content);
	int used = 0;
	for (int i = 0; ; i++)
	{
		auto m = &sent[i];
		http_reset(&http);
		buf_reset(&content);
		bool eof = false, over = false;
		uint64_t limit = vf_bool() ? UINT64_MAX : vf_range(0, 5000);
		bool raised = error_catch
		(
			eof = http_read(&http, &readahead, ! reply[i]);
			if (! eof)
			{
				if (limit == UINT64_MAX && vf_bool())
					http_read_content(&http, &readahead, &content);
				else
					over = http_read_content_limit(&http, &readahead, &content, limit);
			}
		);
		if (raised)
		{
			VF_ENSURES(cut, "http: a whole message is accepted");
			VF_ENSURES(stream_pos == stream_size, "http: broken off after all that arrived");
			break;
		}
		if (eof)
		{
			VF_ENSURES(stream_pos == stream_size, "http: the end is the end");
			VF_ENSURES(i == count || cut, "http: every message is read");
			break;
		}
		VF_ENSURES(i < count, "http: only messages sent are read");
		if (over)
		{
			VF_ENSURES((uint64_t)m->content_size >= limit, "http: refused only above the limit");
			break;
		}
		bool has_length = m->content_size > 0 || http_find(&http, "content-length", 14);
		VF_ENSURES((uint64_t)m->content_size < limit || ! has_length, "http: limited");
		int first = reply[i] ? HTTP_VERSION : HTTP_METHOD, second = reply[i] ? HTTP_CODE : HTTP_URL, third = reply[i] ? HTTP_MSG : HTTP_VERSION;
		VF_ENSURES(str_is_cstr(&http.options[first], m->text[0]) && str_is_cstr(&http.options[third], m->text[2]), "http: the first line is read as written");
		VF_ENSURES(buf_size(&content) == m->content_size && !memcmp(content.start, m->content, m->content_size), "http: the content is read as written");
		VF_ENSURES(content.start == NULL || *content.position == 0 || ! has_length, "http: the content is terminated");
		auto header = (HttpHeader*)http.headers.start;
		int  n = 0;
		for (int h = 0; h < http.headers_count; h++)
		{
			if (by_code[i] && str_is_case(&header[h].name, "content-length", 14))
			{
				char size[32];
				sprintf(size, "%d", m->content_size);
				VF_ENSURES(str_is_cstr(&header[h].value, size), "http: the length is written");
				continue;
			}
			VF_ENSURES(n < m->headers && str_is_cstr(&header[h].name, m->name[n]) && str_is_cstr(&header[h].value, m->value[n]), "http: headers are read as written, in order");
			n++;
		}
		VF_ENSURES(n == m->headers && buf_size(&http.headers) == http.headers_count * (int)sizeof(HttpHeader), "http: all headers are read");
		for (int h = 0; h < m->headers; h++)
		{
			/* the first of this name, in any case */
			int k = 0;
			while (strcasecmp(m->name[k], m->name[h]))
				k++;
			auto at = http_find(&http, m->name[h], strlen(m->name[h]));
			VF_ENSURES(at && str_is_cstr(&at->value, m->value[k]), "http: a header is found by its name");
		}
		VF_ENSURES(! http_find(&http, "x-none-such", 11), "http: only headers sent are found");
		if (! by_code[i] && second == HTTP_URL)
			VF_ENSURES(str_is_cstr(&http.options[second], m->text[1]), "http: the first line is read as written");
		if (by_code[i] && reply[i])
			VF_ENSURES(str_is_cstr(&http.options[second], m->text[1]), "http: the first line is read as written");
		if (by_code[i] && ! reply[i])
		{
			/* the server sees what the client asked for */
			Endpoint e;
			endpoint_init(&e);
			uri_parse_endpoint(&e, &http.options[HTTP_URL]);
			auto s = &eps[i];
			VF_ENSURES(str_compare(&e.service.string, &s->service.string) && str_compare(&e.db.string, &s->db.string) && str_compare(&e.relation.string, &s->relation.string),
			           "http: the request names the database and relation");
			VF_ENSURES(str_compare(&e.columns.string, &s->columns.string) && str_compare(&e.timezone.string, &s->timezone.string) && str_compare(&e.format.string, &s->format.string),
			           "http: the request has the arguments");
			endpoint_free(&e);
		}
	}
	(void)used;
	for (int i = 0; i < count; i++)
		endpoint_free(&eps[i]);
	http_free(&http);
	buf_free(&content);
	readahead_free(&readahead);
#endif
}

#ifndef VF_CBMC
/* reference reading of one header: lines up to the first empty one */
static char text[2048];
static int  text_size;
typedef struct { const char* p; int n; } Part;
static Part first_line[3], names[256], values[256];
static int  parts;

static bool ref_header(int size)
{
	parts = 0;
	bool first = true;
	for (int at = 0; ; )
	{
		/* the line */
		int end = at;
		while (text[end] != '\r')
			end++;
		if (text[end + 1] != '\n')
			return false;
		if (end == at)
			return ! first && end + 2 == size;
		if (first)
		{
			for (int i = 0; i < 2; i++)
			{
				int n = at;
				while (n < end && text[n] != ' ')
					n++;
				if (n == end || n == at)
					return false;
				first_line[i] = (Part){ text + at, n - at };
				at = n + 1;
			}
			if (at == end)
				return false;
			first_line[2] = (Part){ text + at, end - at };
			first = false;
		} else
		{
			int n = at;
			while (n < end && text[n] != ':')
				n++;
			if (n == end || n + 1 == end || text[n + 1] != ' ')
				return false;
			names[parts]  = (Part){ text + at, n - at };
			values[parts] = (Part){ text + n + 2, end - n - 2 };
			parts++;
		}
		at = end + 2;
	}
}

static const char* bits[] =
{
	"POST /v1/db/x HTTP/1.1\r\n", "HTTP/1.1 200 OK\r\n", "\r\n", "\r", "\n", ": ", ":", " ", "a", "Accept: text/plain\r\n", "Content-Length: 3\r\n",
	"Content-Length: 0\r\n", "Content-Length: x\r\n", "Content-Length: -1\r\n", "Content-Length: 4294967299\r\n", "Content-Length: 99999999999999999999\r\n", "Name\r\n", "X: \r\n", "Transfer-Encoding: chunked\r\n", "\r\n\r\n", "\t", "\xff",
	"X-Long: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n",
};
#endif

VF_PROOF(header)
{
	vf_init();
	VF_REACH("text");
#ifndef VF_CBMC
	stream_size = stream_pos = text_size = 0;
	piece = vf_range(0, 3);
	int n = vf_range(0, vf_range(0, 3) ? 8 : 14);
	if (vf_range(0, 3))
		text_size += sprintf(text, "%s", bits[vf_range(0, 1)]);
	for (int i = 0; i < n && text_size < 900; i++)
	{
		auto bit = bits[vf_range(0, sizeof(bits) / sizeof(*bits) - 1)];
		memcpy(text + text_size, bit, strlen(bit));
		text_size += strlen(bit);
		if (vf_range(0, 40) == 0)
			text[text_size++] = 0;
	}
	if (vf_range(0, 5))
	{
		memcpy(text + text_size, "\r\n", 2);
		text_size += 2;
	}
	put(text, text_size);
	/* what follows is not part of the header */
	auto follow = "Content-Length: 2\r\n\r\n : \r\n\r\nPOST / a\r\n\r\n";
	bool more = vf_bool();
	if (more)
	{
		put(follow, strlen(follow));
		strcpy(text + text_size, follow);
		text_size += strlen(follow);
	}
	uint8_t* end = memmem(text, text_size, "\r\n\r\n", 4);
	int size = end ? (char*)end + 4 - text : -1;
	/* between these the header may or may not be refused as too large */
	VF_REQUIRES(size == -1 ? text_size < 512 || text_size >= 768 : size <= 512 || size >= 768);

	bool ok = size != -1 && size <= 512 && ref_header(size);
	int64_t length = 0;
	if (ok)
		for (int i = 0; i < parts; i++)
		{
			if (names[i].n == 17 && ! strncasecmp(names[i].p, "transfer-encoding", 17))
				ok = false;
		}
	if (ok)
		for (int i = 0; i < parts; i++)
			if (names[i].n == 14 && ! strncasecmp(names[i].p, "content-length", 14))
			{
				for (int k = 0; k < values[i].n; k++)
					if (values[i].p[k] < '0' || values[i].p[k] > '9' || length > 1000000)
						length = -1;
					else
					if (length >= 0)
						length = length * 10 + values[i].p[k] - '0';
				break;
			}
	bool refused = ! ok || length == -1 || size + length > text_size;

	Readahead readahead;
	static const int sizes[] = { 1, 7, 255, 256, 257, 4096, 16384 };
	readahead_init(&readahead, NULL, sizes[vf_range(0, 6)]);
	Http http;
	http_init(&http);
	Buf content;
	buf_init(&content);
	bool request = vf_bool(), eof = false;
	bool raised = error_catch
	(
		eof = http_read(&http, &readahead, request);
		if (! eof)
			http_read_content(&http, &readahead, &content);
	);
	VF_ENSURES(! eof || text_size == 0, "http: the end is the end");
	if (! eof)
	{
		VF_ENSURES(raised == refused, "http: exactly well-formed messages are accepted");
		if (! raised)
		{
			Str* o = http.options;
			Str* got[3] = { &o[request ? HTTP_METHOD : HTTP_VERSION], &o[request ? HTTP_URL : HTTP_CODE], &o[request ? HTTP_VERSION : HTTP_MSG] };
			for (int i = 0; i < 3; i++)
				VF_ENSURES(str_is(got[i], first_line[i].p, first_line[i].n), "http: the first line is read as written");
			auto header = (HttpHeader*)http.headers.start;
			VF_ENSURES(http.headers_count == parts, "http: all headers are read");
			for (int i = 0; i < parts; i++)
				VF_ENSURES(str_is(&header[i].name, names[i].p, names[i].n) && str_is(&header[i].value, values[i].p, values[i].n), "http: headers are read as written, in order");
			VF_ENSURES(buf_size(&content) == length && ! memcmp(content.start, text + size, length), "http: the content follows the header");
			/* and the rest is left */
			Buf rest;
			buf_init(&rest);
			for (;;)
			{
				uint8_t* pos = NULL;
				int k = readahead_read(&readahead, vf_range(1, 300), &pos);
				if (! k)
					break;
				buf_write(&rest, pos, k);
			}
			VF_ENSURES(buf_size(&rest) == text_size - size - length && ! memcmp(rest.start, text + size + length, buf_size(&rest)), "http: the next message begins behind the content");
			buf_free(&rest);
		}
	}
	http_free(&http);
	buf_free(&content);
	readahead_free(&readahead);
#endif
}
