//@proof readahead unwind=10 covers=readahead_read,readahead_pushback
//@proof content kind=bounded unwind=19 unwindfn=http_find:3,str_toint:3,http_read_content_limit:8,readahead_read:3 timeout=300 bound=contents_of_at_most_3_(thorough:_5)_bytes_in_any_pieces covers=http_read_content_limit
//@proof length kind=bounded unwind=19 unwindfn=http_find:3,str_toint:6,http_read_content_limit:3 timeout=300 bound=lengths_of_at_most_4_characters covers=http_read_content_limit
//@proof first_line kind=bounded unwind=18  unwindfn=http_read:12,readahead_read:3,http_read_header:3 tunwind=19 timeout=600 bound=headers_of_at_most_11_bytes covers=http_read
//@proof headers kind=bounded unwind=18 tunwind=19 unwindfn=http_read:10,readahead_read:3,http_read_header:3 timeout=600 bound=one_first_line,_header_lines_of_at_most_9_bytes covers=http_read
//@flags -DVF_NO_REALLOC -DVF_WORD_MEMMOVE=1 -DVF_BYTE_COPY=SIZE
#ifdef VF_TIER_THOROUGH
#define LEN  5
#define SIZE 16
#else
#define LEN  3
#define SIZE 16
#endif
#include <vf.h>
#include <amelie_runtime>
#include <amelie_user.h>
#include <amelie_http.h>
#include <vf_env.h>
#ifdef VF_CBMC
static uint8_t  stream[32];
static int      stream_size, stream_pos;
static uint8_t  memory[64], raw[64], data[256];
static int      most;

int tcp_read(Tcp* self, Buf* buf, int size)
{
	(void)self;
	VF_ENSURES(buf->position == buf->start, "VF-CAPACITY: refilled when empty");
	int left = stream_size - stream_pos;
	int n = vf_range(0, most);
	VF_REQUIRES(n <= left && n <= size && (n > 0 || left == 0));
	for (int i = 0; i < most; i++)
		if (i < n)
			buf->position[i] = stream[stream_pos + i];
	buf->position += n;
	stream_pos += n;
	return n;
}
void* memmem(const void* h, size_t hn, const void* n, size_t nn)
{
	(void)nn;
	const uint8_t* p = h, *q = n;
	for (int i = 0; i + 4 <= SIZE; i++)
		if (i + 4 <= (int)hn && p[i] == q[0] && p[i + 1] == q[1] && p[i + 2] == q[2] && p[i + 3] == q[3])
			return (void*)(p + i);
	return NULL;
}
void opts_init(Opts* self) { (void)self; }
#include "http/http.c"

static void set_buf(Buf* buf, uint8_t* at, int used, int size)
{
	buf->start    = at;
	buf->position = at + used;
	buf->end      = at + size;
}
#endif

VF_PROOF(readahead)
{
	vf_init();
	VF_REACH("state");
#ifdef VF_CBMC
	static Readahead self;
	most = 8;
	self.readahead = vf_range(1, 8);
	int used = vf_range(0, 8);
	self.offset = vf_range(0, 8);
	VF_REQUIRES(self.offset <= used);
	set_buf(&self.buf, memory, used, 64);
	stream_size = vf_range(0, 8);
	int  offset = self.offset, size = vf_range(1, 1000);
	uint8_t* pos = NULL;
	int  n = readahead_read(&self, size, &pos);
	int  left = used - offset;
	if (left > 0)
	{
		VF_ENSURES(stream_pos == 0, "readahead: nothing is received before the rest is used");
		VF_ENSURES(n == (left < size ? left : size) && pos == memory + offset && self.offset == offset + n, "readahead: the next bytes");
	} else
	{
		VF_ENSURES((n == 0) == (stream_size == 0), "readahead: the end is the end");
		if (n)
			VF_ENSURES(n == (stream_pos < size ? stream_pos : size) && pos == memory && self.offset == n, "readahead: the next bytes");
	}
	if (n)
	{
		int back = vf_range(0, 8), again;
		VF_REQUIRES(back <= n);
		readahead_pushback(&self, back);
		if (back)
		{
			uint8_t* at;
			again = readahead_read(&self, back, &at);
			VF_ENSURES(again == back && at == pos + n - back, "readahead: bytes pushed back are read again");
		}
	}
	VF_REACH("read");
#endif
}

VF_PROOF(content)
{
	vf_init();
	VF_REACH("content");
#ifdef VF_CBMC
	static Readahead self;
	most = 2;
	self.readahead = vf_range(1, 2);
	set_buf(&self.buf, memory, 0, 64);
	for (int i = 0; i < 8; i++)
		stream[i] = vf_u8();
	stream_size = vf_range(0, LEN + 2);
	/* a part was received with the header */
	int part = vf_range(0, 2);
	VF_REQUIRES(part <= stream_size);
	for (int i = 0; i < 2; i++)
		if (i < part)
			memory[i] = stream[i];
	self.buf.position += part;
	stream_pos = part;

	static Http http;
	static HttpHeader header;
	static char name[] = "content-length";
	char  value[1];
	int   len = vf_range(0, LEN);
	value[0] = '0' + len;
	str_set(&header.name, name, 14);
	str_set(&header.value, value, 1);
	set_buf(&http.headers, (uint8_t*)&header, sizeof(header), sizeof(header));
	http.headers_count = 1;

	static Buf content;
	set_buf(&content, data, 0, 256);
	uint64_t limit = vf_u64();
	vf_may_throw = stream_size < len;
	bool over = http_read_content_limit(&http, &self, &content, limit);
	VF_ENSURES(over == ((uint64_t)len >= limit), "content: refused above the limit");
	if (! over)
	{
		VF_ENSURES(stream_size >= len && buf_size(&content) == len && data[len] == 0, "content: as many bytes as announced, terminated");
		for (int i = 0; i < 5; i++)
			if (i < len)
				VF_ENSURES(data[i] == stream[i], "content: the bytes received");
		int rest = buf_size(&self.buf) - self.offset;
		VF_ENSURES(stream_pos - rest == len, "content: the next message begins right behind");
	}
	VF_REACH("read");
#endif
}

VF_PROOF(length)
{
	vf_init();
	VF_REACH("length");
#ifdef VF_CBMC
	static Readahead self;
	self.readahead = 1;
	most = 1;
	set_buf(&self.buf, memory, 0, 64);
	stream_size = 1;
	static Http http;
	static HttpHeader header;
	static char name[] = "content-length";
	char  value[4];
	int   n = vf_range(0, 4);
	bool  digits = true;
	int   len = 0;
	for (int i = 0; i < 4; i++)
	{
		value[i] = vf_u8();
		if (i < n)
		{
			if (value[i] < '0' || value[i] > '9')
				digits = false;
			len = len * 10 + value[i] - '0';
		}
	}
	str_set(&header.name, name, 14);
	str_set(&header.value, value, n);
	set_buf(&http.headers, (uint8_t*)&header, sizeof(header), sizeof(header));
	http.headers_count = 1;
	static Buf content;
	set_buf(&content, data, 0, 256);
	vf_may_throw = ! digits;
	/* anything but 0 is above the limit */
	bool over = http_read_content_limit(&http, &self, &content, 1);
	VF_ENSURES(digits && over == (len > 0), "content: the length is a number, as written");
	VF_REACH("read");
#endif
}

#ifdef VF_CBMC
static void check_header(int N, bool fixed)
{
	static Readahead self;
	self.readahead = 32;
	set_buf(&self.buf, memory, 0, 64);
	int size = vf_range(4, N);
	for (int i = 0; i < N; i++)
		memory[i] = fixed && i < 7 ? "a b c\r\n"[i] : vf_u8();
	for (int i = 0; i + 4 <= N; i++)
		VF_REQUIRES(i + 4 > size || (memory[i] == '\r' && memory[i + 1] == '\n' && memory[i + 2] == '\r' && memory[i + 3] == '\n') == (i + 4 == size));
	int more = vf_range(0, N);
	VF_REQUIRES(size + more <= N);
	self.buf.position += size + more;
	static Http http;
	set_buf(&http.raw, raw, 0, 64);
	static uint8_t headers[8 * sizeof(HttpHeader)];
	set_buf(&http.headers, headers, 0, sizeof(headers));
	vf_may_throw = true;
	bool request = vf_bool();
	bool eof = http_read(&http, &self, request);
	VF_ENSURES(! eof && self.offset == size, "http: the header ends at the first empty line, what follows is left");
	/* what is accepted is the text received, in order, with nothing between but the separators */
	Str* o = http.options;
	Str* a = &o[request ? HTTP_METHOD : HTTP_VERSION], *b = &o[request ? HTTP_URL : HTTP_CODE], *c = &o[request ? HTTP_VERSION : HTTP_MSG];
	char* p = (char*)raw;
	VF_ENSURES(a->pos == p && a->end > a->pos && *a->end == ' ' && b->pos == a->end + 1 && b->end > b->pos && *b->end == ' ' && c->pos == b->end + 1 && c->end > c->pos && c->end[0] == '\r' && c->end[1] == '\n',
	           "http: three words on the first line");
	p = c->end + 2;
	HttpHeader* h = (HttpHeader*)headers;
	VF_ENSURES(buf_size(&http.headers) == http.headers_count * (int)sizeof(HttpHeader) && http.headers_count <= 2, "http: headers are counted");
	for (int i = 0; i < 2; i++)
		if (i < http.headers_count)
		{
			VF_ENSURES(h[i].name.pos == p && h[i].name.end >= p && h[i].name.end[0] == ':' && h[i].name.end[1] == ' ' && h[i].value.pos == h[i].name.end + 2 && h[i].value.end >= h[i].value.pos &&
			           h[i].value.end[0] == '\r' && h[i].value.end[1] == '\n', "http: one header on each line");
			p = h[i].value.end + 2;
		}
	VF_ENSURES(p[0] == '\r' && p[1] == '\n' && p + 2 == (char*)raw + size, "http: the header ends at the first empty line");
	/* no part crosses a line */
	int lines = 0;
	for (int i = 0; i + 1 < N; i++)
		if (i + 1 < size && raw[i] == '\r')
			lines++;
	VF_ENSURES(lines == http.headers_count + 2, "http: one header on each line");
}
#endif

VF_PROOF(first_line)
{
	vf_init();
	VF_REACH("header");
#ifdef VF_CBMC
	check_header(11, false);
	VF_REACH("accepted");
#endif
}

VF_PROOF(headers)
{
	vf_init();
	VF_REACH("header");
#ifdef VF_CBMC
	check_header(SIZE, true);
	VF_REACH("accepted");
#endif
}
