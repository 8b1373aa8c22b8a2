//@proof read kind=proof unwind=3 fuzz=60000 covers=tcp_read,tcp_read_tls,tcp_read_socket
//@proof write kind=bounded unwind=4 fuzz=60000 ttimeout=600 bound=up_to_2_pieces_of_255_bytes_and_2_transfers_(thorough_3),_natively_6_pieces covers=tcp_write
//@proof write_parts kind=bounded unwind=3 fuzz=20000 bound=buffers_of_up_to_64_bytes_and_2_transfers covers=tcp_write_buf,tcp_write_pair,tcp_write_pair_str
//@proof tls_read kind=proof unwind=3 fuzz=60000 covers=tls_read
//@proof tls_write kind=proof unwind=3 fuzz=60000 covers=tls_write
//@proof verify_name kind=bounded unwind=9 tunwind=11 ttimeout=600 fuzz=200000 bound=names_of_up_to_6_characters_(thorough_8) covers=tls_verify_name
//@link -lssl -lcrypto
//@assume a wait for a connection (poll_read, poll_write) returns when it is ready, or raises an error: decided by unit net
#include <vf.h>
#include <amelie_runtime>
#include <openssl/ssl.h>
#include <openssl/err.h>

/* -- the SSL library: what it may answer -- */
static int  lib_rc, lib_error, lib_calls, lib_asked;
static bool lib_stale;
static void* lib_buf;
static int vf_ssl_io(SSL* ssl, const void* buf, int size)
{
	(void)ssl;
	lib_calls++;
	lib_buf = (void*)buf;
	VF_ENSURES(size == lib_asked, "tls: asks for what the caller asks for");
	return lib_rc;
}
static void vf_err_clear(void) { lib_stale = false; }
static int vf_ssl_get_error(const SSL* ssl, int rc)
{
	(void)ssl;
	VF_ENSURES(rc == lib_rc, "tls: asks why this call failed");
	/* errors of anybody else in this thread hide the reason */
	if (lib_stale)
		return SSL_ERROR_SSL;
	return lib_error;
}
#define SSL_read        vf_ssl_io
#define SSL_write       vf_ssl_io
#define SSL_get_error   vf_ssl_get_error
#define ERR_clear_error vf_err_clear
static int lib_pending;
static int  vf_pending(const SSL* ssl) { (void)ssl; return lib_pending; }
#define SSL_pending     vf_pending
static void lib_failed(int ssl_error, char* msg);
#define tls_lib_error   lib_failed
#ifdef VF_CBMC
/* the text of an error is not looked at */
#define vsfmt(buf, size, fmt, args) (void)((buf)[0] = 0)
#endif
#include "os/tls.c"
#undef tls_lib_error
static int error_seen;
static void lib_failed(int ssl_error, char* msg)
{
	(void)msg;
	error_seen = ssl_error;
	error("tls");
}

/* -- what a connection is made of -- */
typedef struct { int64_t rc; bool throws; } Answer;
static bool     conn_tls;
static int      waits_read, waits_write, asked_size, transfers;
static bool     data_pending;
static uint8_t* asked_at;
static int      answer;
static int      fd_seen;
static bool vf_is_set(Tls* tls) { (void)tls; return conn_tls; }
static bool vf_tls_pending(Tls* tls)
{
	(void)tls;
	VF_ENSURES(conn_tls, "connection: asks the tls library only if there is one");
	return data_pending;
}
static Tcp tcp;
static int read_from(bool tls, uint8_t* p, int size)
{
	VF_ENSURES(tls == conn_tls, "connection: never around the encryption");
	VF_ENSURES((waits_read == 1) == ! (conn_tls && data_pending) && ! waits_write, "connection: waits for data, unless there is some already");
	VF_ENSURES(transfers++ == 0, "connection: reads once");
	asked_at = p;
	asked_size = size;
	if (tls && answer == -1)
		errno = EAGAIN;
	if (answer > size)
		answer = size;
	return answer;
}
static int vf_tls_read(Tls* tls, void* p, int size)
{
	VF_ENSURES(tls == &tcp.tls, "connection: its own tls");
	return read_from(true, p, size);
}
static ssize_t vf_socket_read(int fd, void* p, size_t size)
{
	VF_ENSURES(fd == 33, "connection: its own socket");
	return read_from(false, p, size);
}
static bool wait_throws;
static void wait_for(Fd* fd, int time, int* count)
{
	VF_ENSURES(fd == &tcp.fd && time == -1, "connection: waits as long as it takes");
	(*count)++;
	if (wait_throws && vf_bool())
		error("cancelled");
}
static void vf_poll_read(Fd* fd, int time)  { wait_for(fd, time, &waits_read); }
static void vf_poll_write(Fd* fd, int time) { wait_for(fd, time, &waits_write); }

/* pieces sent */
#ifdef VF_CBMC
#define PIECE 255
#define PIECES 2
#ifdef VF_TIER_THOROUGH
#define LIMIT 3
#else
#define LIMIT 2
#endif
#else
#define PIECE (vf_bool() ? 5 : 0x3fffffffu)
#define PIECES 6
#define LIMIT 3000
#endif
static char*    piece_base[PIECES];
static uint64_t piece_len[PIECES], total, done;
static int      pieces, at, refused;
static uint64_t at_offset;
static struct iovec vec[PIECES];
static bool     failed;
static int64_t give(bool tls, const struct iovec* v, int n)
{
	VF_ENSURES(tls == conn_tls, "connection: never around the encryption");
	VF_ENSURES(! failed, "connection: nothing is sent after a failure");
	VF_ENSURES(waits_write == refused, "connection: waits before it tries again");
	VF_ENSURES(n > 0 && n <= pieces, "connection: number of pieces");
	VF_REQUIRES(transfers < LIMIT);
	transfers++;
	int from = pieces - n;
	VF_ENSURES(from <= at, "connection: no piece is left out");
	uint64_t ask = 0;
	for (int i = 0; i < PIECES; i++)
	{
		if (i < from || i >= pieces)
			continue;
		uint64_t skip = i < at ? piece_len[i] : i == at ? at_offset : 0;
		VF_ENSURES(v[i - from].iov_len == piece_len[i] - skip, "connection: a transfer continues where the last one stopped");
		VF_ENSURES(piece_len[i] == skip || v[i - from].iov_base == piece_base[i] + skip, "connection: a transfer continues where the last one stopped (data)");
		ask += piece_len[i] - skip;
	}
	switch (vf_range(0, 3)) {
	case 0:
	{
		int why = vf_range(0, 2);
		errno = tls || why == 0 ? EAGAIN : why == 1 ? EINTR : EWOULDBLOCK;
		refused++;
		return -1;
	}
	case 1:
		failed = true;
		if (tls)
			error("tls");
		errno = vf_bool() ? EPIPE : ECONNRESET;
		return -1;
	}
	int64_t r = vf_range(ask ? 1 : 0, ask);
	done += r;
	uint64_t left = r;
	for (int i = 0; i < PIECES; i++)
	{
		if (i != at || i >= pieces)
			continue;
		if (left < piece_len[i] - at_offset)
		{
			at_offset += left;
			break;
		}
		left -= piece_len[i] - at_offset;
		at_offset = 0;
		at++;
	}
	return r;
}
static int vf_tls_writev(Tls* tls, struct iovec* v, int n)
{
	VF_ENSURES(tls == &tcp.tls, "connection: its own tls");
	return give(true, v, n);
}
static ssize_t vf_socket_writev(int fd, const struct iovec* v, int n)
{
	VF_ENSURES(fd == 33, "connection: its own socket");
	return give(false, v, n);
}
#define tls_is_set       vf_is_set
#define tls_read_pending vf_tls_pending
#define tls_read         vf_tls_read
#define tls_writev       vf_tls_writev
#define socket_read      vf_socket_read
#define socket_writev    vf_socket_writev
#define poll_read        vf_poll_read
#define poll_write       vf_poll_write
#include "os/tcp.c"
#undef tls_is_set
#undef tls_read_pending
#undef tls_read
#undef tls_writev
#undef socket_read
#undef socket_writev
#undef poll_read
#undef poll_write
#ifndef VF_CBMC
#include "os/socket.c"
#include "os/tls_lib.c"
#include "base/poller.c"
#include "base/notify.c"
#include "base/context.c"
#include "os/vfs.c"
#endif
#include <vf_env.h>

static atomic_u64 sent, received;
static uint64_t   sent_before, received_before;
static void begin(void)
{
	vf_init();
	memset(&tcp, 0, sizeof(tcp));
	sent_before = vf_range(0, UINT64_MAX / 2);
	received_before = vf_range(0, UINT64_MAX / 2);
	sent = sent_before;
	received = received_before;
	tcp_init(&tcp, &sent, &received);
	tcp.fd.fd = 33;
	conn_tls = vf_bool();
	waits_read = waits_write = transfers = refused = 0;
	failed = wait_throws = false;
	total = done = 0;
}
VF_PROOF(read)
{
	begin();
	static uint8_t mem[1 << 20];
	Buf buf;
	buf_init(&buf);
	int before = vf_range(0, 1 << 18), space = vf_range(0, 1 << 19);
	buf.start    = mem;
	buf.position = mem + before;
	buf.end      = mem + before + space;
	int size = vf_range(1, 1 << 19);
	VF_REQUIRES(size <= space);
	data_pending = vf_bool();
	answer = (int)vf_range(0, (1 << 19) + 1) - 1;
	int expect = answer > size ? size : answer;
	VF_REACH("read");
	int rc = tcp_read(&tcp, &buf, size);
	/* errors of a socket are seen as its end */
	if (! conn_tls && expect == -1)
		expect = 0;
	VF_ENSURES(rc == expect, "connection: returns what was read");
	VF_ENSURES(transfers == 1 && asked_at == mem + before && asked_size == size, "connection: reads behind what is there already");
	VF_ENSURES(buf.start == mem && buf_size(&buf) == before + (rc > 0 ? rc : 0), "connection: keeps exactly what was read");
	VF_ENSURES(tcp_eof(&tcp) == (rc == 0), "connection: its end is seen, and only its end");
	VF_ENSURES(received == received_before + (rc > 0 ? rc : 0) && sent == sent_before, "connection: counts the bytes received");
}
static void must_fail(void)
{
	VF_ENSURES(failed || wait_throws, "connection: fails only if the network does");
	VF_ENSURES(sent == sent_before + done, "connection: counts the bytes sent");
}
VF_PROOF(write)
{
	begin();
	pieces = vf_range(0, PIECES);
	at = 0;
	at_offset = 0;
	for (int i = 0; i < PIECES; i++)
	{
		if (i >= pieces)
			break;
		piece_len[i]  = vf_range(0, PIECE);
		piece_base[i] = (char*)(uintptr_t)(0x100000000ull * (i + 1));
		vec[i].iov_base = piece_base[i];
		vec[i].iov_len  = piece_len[i];
		total += piece_len[i];
	}
	VF_REQUIRES(total < 0x7fffffff);
	wait_throws = vf_bool();
	VF_MAY_THROW(true);
	vf_on_throw = must_fail;
	VF_REACH("write");
	tcp_write(&tcp, vec, pieces);
	VF_ENSURES(! failed && done == total, "connection: success means every byte was sent");
	VF_ENSURES(sent == sent_before + total && received == received_before, "connection: counts the bytes sent");
}
/* the ways to say it: one transfer which takes everything */
VF_PROOF(write_parts)
{
	begin();
	static uint8_t one[64], two[64];
	Buf a, b;
	buf_init(&a);
	buf_init(&b);
	int size_a = vf_range(0, 64), size_b = vf_range(0, 64);
	a.start = one; a.position = one + size_a; a.end = one + 64;
	b.start = two; b.position = two + size_b; b.end = two + 64;
	Str s;
	str_set(&s, (char*)two, size_b);
	int way = vf_range(0, 2);
	pieces = way == 0 ? 1 : 2;
	at = 0;
	at_offset = 0;
	piece_base[0] = (char*)one; piece_len[0] = size_a;
	piece_base[1] = (char*)two; piece_len[1] = size_b;
	VF_MAY_THROW(true);
	vf_on_throw = must_fail;
	VF_REACH("parts");
	if (way == 0)
		tcp_write_buf(&tcp, &a);
	else if (way == 1)
		tcp_write_pair(&tcp, &a, &b);
	else
		tcp_write_pair_str(&tcp, &a, &s);
	VF_ENSURES(! failed && done == (uint64_t)size_a + (way ? size_b : 0), "connection: everything given is sent");
	VF_ENSURES(buf_size(&a) == size_a && buf_size(&b) == size_b && str_size(&s) == size_b, "connection: what was sent is not changed");
}

/* -- answers of the tls library -- */
static Tls tls;
static int is_end(bool write)
{
	if (lib_rc > 0)
		return lib_rc;
	if (lib_error == SSL_ERROR_WANT_READ || lib_error == SSL_ERROR_WANT_WRITE)
		return -1;
	if (! write && (lib_error == SSL_ERROR_ZERO_RETURN || lib_error == SSL_ERROR_SYSCALL))
		return 0;
	/* fails */
	return -2;
}
static bool writes;
static void tls_threw(void)
{
	VF_ENSURES(is_end(writes) == -2, "tls: fails only if the library does");
	VF_ENSURES(lib_calls == 1, "tls: one transfer");
}
static void ask(bool write)
{
	vf_init();
	tls_init(&tls);
	tls.ssl = (SSL*)(uintptr_t)0x1000;
	lib_calls = 0;
	lib_stale = vf_bool();
	lib_asked = vf_range(1, 0x7fffffff);
	lib_rc = (int)((int64_t)vf_range(0, (uint64_t)lib_asked + 1) - 1);
	lib_error = vf_range(1, 12);
	static uint8_t at;
	writes = write;
	VF_MAY_THROW(true);
	vf_on_throw = tls_threw;
	VF_REACH("tls");
	int rc = write ? tls_write(&tls, &at, lib_asked) : tls_read(&tls, &at, lib_asked);
	int expect = is_end(write);
	VF_ENSURES(expect != -2, "tls: a failure is an error");
	VF_ENSURES(rc == expect && lib_calls == 1 && lib_buf == &at, "tls: tells how much was transferred");
	VF_ENSURES(rc != -1 || errno == EAGAIN, "tls: asks to try again only if that helps");
}
VF_PROOF(tls_read)  { ask(false); }
VF_PROOF(tls_write) { ask(true); }

/* -- names in certificates -- */
#ifdef VF_TIER_THOROUGH
#define NAME 8
#else
#define NAME 6
#endif
static void name(char* s)
{
	static const char set[] = "abA.*.a";
	int n = vf_range(0, NAME);
	for (int i = 0; i < NAME + 1; i++)
	{
		s[i] = i < n ? set[vf_range(0, 6)] : 0;
	}
}
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
VF_PROOF(verify_name)
{
	vf_init();
	char cert[NAME + 1], want[NAME + 1];
	name(cert);
	name(want);
	/* every label is the same */
	bool same = true;
	for (int i = 0; i < NAME + 1; i++)
		if (low(cert[i]) != low(want[i]))
			same = false;
	/* or the first one is a star: at least two more, the next two not empty,
	 * and they are what follows the first, not empty, label of the name */
	int dot = -1, dots = 0, second = -1;
	for (int i = 0; i < NAME + 1; i++)
	{
		if (want[i] == '.' && dot < 0)
			dot = i;
		if (cert[i] == '.' && ++dots == 2)
			second = i;
	}
	bool star = cert[0] == '*' && cert[1] == '.' && dots >= 2 && second > 2 && cert[second + 1] != '.';
	bool rest = dot > 0;
	for (int i = 0; i < NAME + 1; i++)
	{
		if (dot <= 0 || dot + i > NAME || 1 + i > NAME)
			break;
		if (low(want[dot + i]) != low(cert[1 + i]))
			rest = false;
		if (! cert[1 + i])
			break;
	}
	/* one of them ends before the other */
	if (dot > 0)
	{
		int a = 0, b = 0;
		for (int i = 0; i < NAME + 1; i++)
		{
			if (cert[i]) a = i + 1;
			if (want[i]) b = i + 1;
		}
		if (a - 1 != b - dot)
			rest = false;
	}
	VF_REACH("name");
	VF_ENSURES(tls_verify_name(cert, want) == (same || (star && rest)), "tls: a name matches itself, and a star one label before a domain of two or more");
}
