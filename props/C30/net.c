//@proof stream kind=native fuzz=1500 ttimeout=300 bound=conversations_of_up_to_6_turns_of_up_to_200000_bytes,_over_sockets_with_short_and_refused_transfers,_plain_and_TLS covers=tcp_write,tcp_write_buf,tcp_write_pair,tcp_write_pair_str,tcp_read,tcp_read_tls,tcp_read_socket,tcp_set_fd,tcp_attach,tcp_detach,tcp_close,tcp_connect_fd,readahead_read,tls_read,tls_write,tls_writev,tls_create,tls_handshake,tls_connect,tls_accept,poll_read,poll_write,poller_add,poller_del,poller_read,poller_write,poller_step
//@proof stuck kind=native fuzz=1500 bound=one_reader_or_writer_which_waits,_cancelled covers=tcp_read,tcp_write,poll_read,poll_write,tcp_detach,tcp_close
//@proof gone kind=native fuzz=600 ttimeout=200 bound=one_connection_closed_by_its_peer,_with_or_without_a_goodbye covers=tcp_write,tcp_read,tls_write,tls_read,tls_error,tcp_close
//@proof peer kind=native fuzz=400 bound=certificate_and_server_names_of_up_to_4_labels covers=tls_verify_name,tls_verify_common_name,tls_handshake,tls_context_create
//@proof reconnect kind=native fuzz=150 bound=up_to_3_connections_of_one_client,_over_TCP_and_unix_sockets,_plain_and_TLS covers=client_create,client_connect,client_connect_to,client_connect_to_path,client_close,client_free,client_accept,client_attach,client_detach,tcp_connect,tcp_connect_begin,tcp_connect_complete,listen_start,listen_accept,listen_stop,tls_context_set,tls_context_create,job_mgr_add,job_mgr_next,run
//@nflags -fno-sanitize=address -fsanitize-trap=undefined
//@link -lssl -lcrypto
#include <vf.h>
#include <amelie_runtime>
#include <amelie_user.h>
#include <amelie_http.h>
#include <amelie_client.h>
#define VF_REAL_REPORT
#include <vf_env.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "base/report.c"
#include "base/context.c"
#include "base/context_stack.c"
#include "base/timer_mgr.c"
#include "base/poller.c"
#include "base/notify.c"
#include "base/task.c"
/* a network which takes and gives as little as it likes */
static bool rough;
static uint64_t lcg;
static uint32_t dice(uint32_t n)
{
	lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
	return (lcg >> 33) % n;
}
static ssize_t vf_writev(int fd, const struct iovec* iov, int count)
{
	if (! rough || dice(3))
		return writev(fd, iov, count);
	if (dice(3) == 0)
	{
		static const int why[] = { EAGAIN, EINTR, EWOULDBLOCK };
		errno = why[dice(3)];
		return -1;
	}
	/* a part of it */
	size_t total = 0;
	for (int i = 0; i < count; i++)
		total += iov[i].iov_len;
	size_t n = total > 1 ? 1 + dice(total) : total, left = n;
	struct iovec part[16];
	int k = 0;
	for (int i = 0; i < count && k < 16; i++)
	{
		part[k] = iov[i];
		if (part[k].iov_len > left)
			part[k].iov_len = left;
		left -= part[k].iov_len;
		k++;
	}
	return writev(fd, part, k);
}
static ssize_t vf_read(int fd, void* buf, size_t size)
{
	if (rough && size > 1 && ! dice(3))
		size = 1 + dice(size);
	return read(fd, buf, size);
}
#define writev vf_writev
#define read   vf_read
#include "os/socket.c"
#undef writev
#undef read
#include "os/tls_lib.c"
#include "os/tls_context.c"
#include "os/tls.c"
#include "os/tcp.c"
#include "os/listen.c"
#include "os/vfs.c"
#include "lib/job_mgr.c"
#include "lib/job_worker.c"
#include "json/json_parser.c"
#include "json/json_export.c"
#include "runtime/opts.c"
#include "http/endpoint.c"
#include "http/uri.c"
#include "http/http.c"
#include "client/client.c"

static Runtime    rt;
static Task       task;
static char       dir[256], file_cert[300], file_key[300], file_other[300];
static EVP_PKEY*  pkey, *pkey_authority;
static char       file_authority[300];
static bool       by_authority, is_authority;
static TlsContext tls_server, tls_client;
static atomic_u64 sent[2], received[2];
static Tcp        tcp[2];
static uint64_t   runs;

static Str* S(const char* s)
{
	static Str at[16];
	static int n;
	Str* str = &at[n++ & 15];
	str_set(str, (char*)s, strlen(s));
	return str;
}
static void overdue(int sig)
{
	(void)sig;
	vf_ensure_failed("connection: nobody waits for ever", __FILE__, __LINE__);
}
/* a certificate signed by its own key, or by the authority */
static void certificate(const char* path, const char* cn, int cn_size)
{
	X509* cert = X509_new();
	X509_set_version(cert, 2);
	ASN1_INTEGER_set(X509_get_serialNumber(cert), ++runs);
	X509_gmtime_adj(X509_getm_notBefore(cert), -1000);
	X509_gmtime_adj(X509_getm_notAfter(cert), 1000000);
	X509_set_pubkey(cert, is_authority ? pkey_authority : pkey);
	X509_NAME* name = X509_get_subject_name(cert);
	X509_NAME_add_entry_by_txt(name, "O", MBSTRING_ASC, (unsigned char*)"test", -1, -1, 0);
	if (cn)
		VF_REQUIRES(X509_NAME_add_entry_by_NID(name, NID_commonName, MBSTRING_ASC, (unsigned char*)cn, cn_size, -1, 0) == 1);
	if (by_authority)
	{
		X509_NAME* issuer = X509_NAME_new();
		X509_NAME_add_entry_by_txt(issuer, "O", MBSTRING_ASC, (unsigned char*)"test", -1, -1, 0);
		X509_NAME_add_entry_by_txt(issuer, "CN", MBSTRING_ASC, (unsigned char*)"authority", -1, -1, 0);
		X509_set_issuer_name(cert, issuer);
		X509_NAME_free(issuer);
	} else
		X509_set_issuer_name(cert, name);
	if (is_authority)
	{
		X509_EXTENSION* ext = X509V3_EXT_conf_nid(NULL, NULL, NID_basic_constraints, "CA:TRUE");
		VF_REQUIRES(ext != NULL);
		X509_add_ext(cert, ext, -1);
		X509_EXTENSION_free(ext);
	}
	VF_REQUIRES(X509_sign(cert, is_authority || by_authority ? pkey_authority : pkey, EVP_sha256()) > 0);
	FILE* f = fopen(path, "w");
	VF_REQUIRES(f != NULL);
	PEM_write_X509(f, cert);
	fclose(f);
	X509_free(cert);
}
static void env(void)
{
	vf_init();
	am_runtime = &rt;
	lcg = vf_u64();
	rough = false;
	if (! *dir)
	{
		signal(SIGPIPE, SIG_IGN);
		tls_lib_init();
		const char* scratch = getenv("VF_SCRATCH");
		snprintf(dir, sizeof(dir), "%s/vf30.XXXXXX", scratch ? scratch : ".");
		VF_REQUIRES(mkdtemp(dir) != NULL);
		snprintf(file_cert,  sizeof(file_cert),  "%s/cert.pem",  dir);
		snprintf(file_key,   sizeof(file_key),   "%s/key.pem",   dir);
		snprintf(file_other, sizeof(file_other), "%s/other.pem", dir);
		pkey = EVP_EC_gen("P-256");
		VF_REQUIRES(pkey != NULL);
		FILE* f = fopen(file_key, "w");
		PEM_write_PrivateKey(f, pkey, NULL, NULL, 0, NULL, NULL);
		fclose(f);
		snprintf(file_authority, sizeof(file_authority), "%s/authority.pem", dir);
		pkey_authority = EVP_EC_gen("P-256");
		VF_REQUIRES(pkey_authority != NULL);
		is_authority = true;
		certificate(file_authority, "authority", 9);
		is_authority = false;
		certificate(file_other, "other", 5);
		certificate(file_cert, "db.test", 7);
	}
	rt.config.log_connections.type = OPT_BOOL;
	rt.config.log_connections.integer = 0;
	rt.state.sent_bytes.type = rt.state.recv_bytes.type = OPT_INT;
	rt.state.sent_bytes.integer = rt.state.recv_bytes.integer = 0;
	signal(SIGALRM, overdue);
	alarm(60);
	task_init(&task);
	int rc = task_create_nothrow(&task, "test", NULL, NULL, &rt, NULL, NULL, NULL, &vf_buf_mgr);
	VF_REQUIRES(rc == 0);
}
static void env_free(void)
{
	VF_ENSURES(task.poller.list_count == 1, "connection: nothing is left in the poller");
	task_free(&task);
	alarm(0);
}
static void tls_make(const char* ca, const char* server)
{
	Str none;
	str_init(&none);
	tls_context_init(&tls_server);
	tls_context_init(&tls_client);
	tls_context_set(&tls_server, false, S(file_cert), S(file_key), &none, &none, &none);
	tls_context_set(&tls_client, true, &none, &none, ca ? S(ca) : &none, &none, server ? S(server) : &none);
	tls_context_create(&tls_server);
	tls_context_create(&tls_client);
}
static void pair(bool tls, bool small)
{
	int fd[2];
	VF_REQUIRES(socketpair(AF_UNIX, SOCK_STREAM, 0, fd) == 0);
	for (int i = 0; i < 2; i++)
	{
		if (small)
		{
			int size = 1;
			setsockopt(fd[i], SOL_SOCKET, SO_SNDBUF, &size, sizeof(size));
		}
		sent[i] = received[i] = 0;
		tcp_init(&tcp[i], &sent[i], &received[i]);
		tcp_set_fd(&tcp[i], fd[i]);
		if (tls)
			tcp_set_tls(&tcp[i], i ? &tls_server : &tls_client);
		VF_ENSURES(fcntl(fd[i], F_GETFL) & O_NONBLOCK, "connection: a socket never blocks the thread");
	}
}
static void unpair(void)
{
	for (int i = 0; i < 2; i++)
	{
		tcp_close(&tcp[i]);
		VF_ENSURES(! tcp_connected(&tcp[i]) && tcp[i].fd.fd == -1, "connection: closed");
		tcp_free(&tcp[i]);
	}
}

/* -- a conversation -- */
typedef struct { int from, bytes, calls; uint64_t seed; } Turn;
static Turn turns[6];
static int  turns_count;
static bool use_tls;
static uint8_t byte_of(Turn* t, int i) { return (t->seed + i * 2654435761u) >> 13; }

/* the same thread fails at something else */
static void mishap(void)
{
	Str none;
	str_init(&none);
	char missing[300];
	snprintf(missing, sizeof(missing), "%s/nothing.pem", dir);
	TlsContext context;
	tls_context_init(&context);
	switch (dice(3)) {
	case 0: tls_context_set(&context, true, &none, &none, S(missing), &none, &none); break;
	case 1: tls_context_set(&context, false, S(missing), S(file_key), &none, &none, &none); break;
	case 2: tls_context_set(&context, false, S(file_cert), S(file_cert), &none, &none, &none); break;
	}
	bool bad = error_catch( tls_context_create(&context) );
	VF_ENSURES(bad && ! tls_context_created(&context), "tls: an unusable certificate or key is refused");
	tls_context_free(&context);
}
static void talk(Tcp* self, Turn* t)
{
	if (use_tls && dice(3) == 0)
		mishap();
	uint8_t* data = malloc(t->bytes + 1);
	for (int i = 0; i < t->bytes; i++)
		data[i] = byte_of(t, i);
	int at = 0;
	while (at < t->bytes)
	{
		/* some pieces of what is left */
		struct iovec iov[5];
		int n = 1 + dice(5), k = 0;
		int cut[6] = { at };
		for (; k < n; k++)
		{
			int size = dice(4) == 0 ? 0 : dice(2) ? (int)dice(50) : 1 + (int)dice(60000);
			if (size > t->bytes - cut[k])
				size = t->bytes - cut[k];
			iov[k] = (struct iovec){ data + cut[k], size };
			cut[k + 1] = cut[k] + size;
		}
		Buf a, b;
		Str s;
		buf_init(&a);
		buf_init(&b);
		switch (dice(4)) {
		case 0:
			if (cut[1] == at) break;
			buf_write(&a, data + at, cut[1] - at);
			tcp_write_buf(self, &a);
			at = cut[1];
			break;
		case 1:
			if (n < 2 || cut[2] == at) break;
			buf_write(&a, data + at, cut[1] - at);
			buf_write(&b, data + cut[1], cut[2] - cut[1]);
			tcp_write_pair(self, &a, &b);
			at = cut[2];
			break;
		case 2:
			if (n < 2 || cut[2] == at) break;
			buf_write(&a, data + at, cut[1] - at);
			str_set(&s, (char*)data + cut[1], cut[2] - cut[1]);
			tcp_write_pair_str(self, &a, &s);
			at = cut[2];
			break;
		default:
			if (cut[n] == at) break;
			tcp_write(self, iov, n);
			at = cut[n];
			break;
		}
		buf_free(&a);
		buf_free(&b);
	}
	free(data);
}
static void hear(Readahead* self, Turn* t)
{
	int at = 0;
	while (at < t->bytes)
	{
		uint8_t* pos;
		int size = dice(2) ? 1 + (int)dice(10) : 1 + (int)dice(50000);
		int n = readahead_read(self, size, &pos);
		VF_ENSURES(n > 0 && n <= size, "connection: everything sent arrives");
		int take = n > t->bytes - at ? t->bytes - at : n;
		Turn* next = t + 1;
		VF_ENSURES(take == n || (next < turns + turns_count && next->from == t->from), "connection: nothing else arrives");
		if (dice(4) == 0)
			take = dice(take + 1);
		for (int i = 0; i < take; i++)
			VF_ENSURES(pos[i] == byte_of(t, at + i), "connection: the bytes arrive in the order sent");
		readahead_pushback(self, n - take);
		at += take;
	}
}
static void end(void* arg)
{
	int me = (int)(intptr_t)arg;
	Tcp* self = &tcp[me];
	tcp_attach(self);
	Readahead readahead;
	readahead_init(&readahead, self, 1 + dice(dice(2) ? 100 : 20000));
	tcp_connect_fd(self);
	VF_ENSURES(tcp_connected(self) && tls_is_set(&self->tls) == use_tls && (self->tls.ssl != NULL) == use_tls, "connection: encrypted exactly if asked for");
	uint64_t out = 0, in = 0;
	for (int i = 0; i < turns_count; i++)
	{
		if (turns[i].from == me)
			talk(self, &turns[i]), out += turns[i].bytes;
		else
			hear(&readahead, &turns[i]), in += turns[i].bytes;
	}
	VF_ENSURES(self->stat_sent[0] == out && self->stat_recv[0] == in, "connection: counts the bytes sent and received");
	if (me == 0)
	{
		if (use_tls && vf_bool())
			SSL_shutdown(self->tls.ssl);
		tcp_close(self);
	} else
	{
		uint8_t* pos;
		VF_ENSURES(! tcp_eof(self), "connection: not at its end before the end");
		VF_ENSURES(readahead_read(&readahead, 100, &pos) == 0 && tcp_eof(self), "connection: its end is seen");
		VF_ENSURES(self->stat_recv[0] == in, "connection: counts the bytes received");
		tcp_detach(self);
	}
	readahead_free(&readahead);
}
static void both(void* arg)
{
	(void)arg;
	uint64_t id[2];
	for (int i = 0; i < 2; i++)
		id[i] = coroutine_create(end, (void*)(intptr_t)i);
	for (int i = 0; i < 2; i++)
		coroutine_wait(id[i]);
}
VF_PROOF(stream)
{
	env();
	use_tls = vf_range(0, 2) == 0;
	rough = vf_bool();
	turns_count = vf_range(0, 6);
	for (int i = 0; i < turns_count; i++)
		turns[i] = (Turn){ .from = vf_range(0, 1), .bytes = vf_range(0, 3) ? vf_range(1, 400) : vf_range(1, 200000), .seed = vf_u64() };
	certificate(file_cert, "db.test", 7);
	if (use_tls)
		tls_make(NULL, vf_bool() ? "db.test" : NULL);
	pair(use_tls, vf_bool());
	VF_REACH("stream");
	task_execute(&task, both, NULL);
	unpair();
	if (use_tls)
	{
		tls_context_free(&tls_server);
		tls_context_free(&tls_client);
	}
	env_free();
}

/* -- waiting for a peer which does nothing -- */
static bool stuck_write, stuck_began, stuck_threw, stuck_done;
static int  stuck_first;
static void stuck_main(void* arg)
{
	Tcp* self = arg;
	Buf buf;
	buf_init(&buf);
	stuck_began = true;
	stuck_threw = error_catch
	(
		if (stuck_write)
		{
			for (;;)
			{
				buf_reset(&buf);
				buf_emplace(&buf, 70000);
				tcp_write_buf(self, &buf);
			}
		} else
		{
			for (int i = 0; i < stuck_first; i++)
				tcp_read(self, &buf, 1);
			tcp_read(self, &buf, 100);
			stuck_done = true;
		}
	);
	buf_free(&buf);
}
static void stuck_both(void* arg)
{
	(void)arg;
	tcp_attach(&tcp[0]);
	stuck_began = stuck_threw = stuck_done = false;
	if (stuck_first)
		VF_REQUIRES(write(tcp[1].fd.fd, "abc", stuck_first) == stuck_first);
	uint64_t id = coroutine_create(stuck_main, &tcp[0]);
	int n = vf_range(0, 3);
	for (int i = 0; i < n; i++)
		coroutine_sleep(vf_range(0, 1));
	coroutine_kill(id);
	VF_ENSURES(stuck_threw == stuck_began && ! stuck_done, "connection: a cancel ends the wait with an error");
	VF_ENSURES(tcp[0].fd.mask == 0 && ! tcp[0].fd.on_read && ! tcp[0].fd.on_write, "connection: nobody is woken who does not wait any more");
	/* and the connection can be used by another one */
	stuck_first = 0;
	if (! stuck_write)
	{
		char rest[4];
		while (read(tcp[0].fd.fd, rest, 4) > 0) { }
		Buf buf;
		buf_init(&buf);
		VF_REQUIRES(write(tcp[1].fd.fd, "abc", 3) == 3);
		VF_ENSURES(tcp_read(&tcp[0], &buf, 100) == 3 && memcmp(buf.start, "abc", 3) == 0, "connection: usable after a cancel");
		buf_free(&buf);
	}
	if (vf_bool())
		tcp_detach(&tcp[0]);
}
VF_PROOF(stuck)
{
	env();
	pair(false, vf_bool());
	stuck_write = vf_bool();
	stuck_first = stuck_write ? 0 : vf_range(0, 3);
	VF_REACH("stuck");
	task_execute(&task, stuck_both, NULL);
	unpair();
	env_free();
}

/* -- a peer which has gone -- */
static bool gone_goodbye, gone_listen, gone_big;
static int  gone_ready;
static void gone_end(void* arg)
{
	int me = (int)(intptr_t)arg;
	Tcp* self = &tcp[me];
	tcp_attach(self);
	tcp_connect_fd(self);
	Buf buf;
	buf_init(&buf);
	/* both have finished the handshake */
	buf_write(&buf, "x", 1);
	if (me == 0)
	{
		tcp_write_buf(self, &buf);
		if (use_tls && gone_goodbye)
			SSL_shutdown(self->tls.ssl);
		tcp_close(self);
		gone_ready = 1;
		return;
	}
	buf_reset(&buf);
	while (tcp_read(self, &buf, 1) != 1) { }
	while (! gone_ready)
		coroutine_sleep(0);
	if (gone_listen)
	{
		int rc = 0;
		for (int i = 0; i < 3; i++)
		{
			rc = tcp_read(self, &buf, 10);
			VF_ENSURES(rc <= 0, "connection: nothing arrives from a peer which has gone");
			if (rc == 0)
				break;
		}
		VF_ENSURES(rc == 0 && tcp_eof(self), "connection: its end is seen");
	}
	buf_reset(&buf);
	buf_emplace(&buf, gone_big ? 300000 : 10);
	bool threw = error_catch( tcp_write_buf(self, &buf) );
	VF_ENSURES(threw, "connection: a write to a peer which has gone fails");
	buf_free(&buf);
	tcp_close(self);
}
static void gone_both(void* arg)
{
	(void)arg;
	uint64_t id[2];
	for (int i = 0; i < 2; i++)
		id[i] = coroutine_create(gone_end, (void*)(intptr_t)i);
	for (int i = 0; i < 2; i++)
		coroutine_wait(id[i]);
}
VF_PROOF(gone)
{
	env();
	use_tls = vf_bool();
	gone_goodbye = vf_bool();
	gone_listen = vf_bool();
	gone_big = vf_bool();
	gone_ready = 0;
	if (use_tls)
		tls_make(NULL, NULL);
	pair(use_tls, false);
	alarm(20);
	VF_REACH("gone");
	task_execute(&task, gone_both, NULL);
	unpair();
	if (use_tls)
	{
		tls_context_free(&tls_server);
		tls_context_free(&tls_client);
	}
	env_free();
}

/* -- who is at the other end -- */
static bool refused[2];
static char peer_name[64];
static void peer_end(void* arg)
{
	int me = (int)(intptr_t)arg;
	tcp_attach(&tcp[me]);
	refused[me] = error_catch( tcp_connect_fd(&tcp[me]) );
	VF_ENSURES(tcp_connected(&tcp[me]) == ! refused[me], "connection: connected only if accepted");
	if (refused[me])
		tcp_close(&tcp[me]);
}
static void peer_both(void* arg)
{
	(void)arg;
	uint64_t id[2];
	for (int i = 0; i < 2; i++)
		id[i] = coroutine_create(peer_end, (void*)(intptr_t)i);
	for (int i = 0; i < 2; i++)
		coroutine_wait(id[i]);
}
static int labels(char* s)
{
	static const char* part[] = { "a", "b", "A", "*", "", "aa", "test", "a", "b" };
	int n = vf_range(1, 4), size = 0;
	*s = 0;
	for (int i = 0; i < n; i++)
		size += sprintf(s + size, "%s%s", i ? "." : "", part[vf_range(0, 8)]);
	return size;
}
/* a name matches itself; *.b.c matches x.b.c for one label x, not a.x.b.c;
 * a star does not stand for a top level domain */
static bool matches(const char* cert, const char* name)
{
	if (! strcasecmp(cert, name))
		return true;
	if (cert[0] != '*' || cert[1] != '.' || cert[2] == '.')
		return false;
	const char* dot = strchr(cert + 2, '.');
	if (! dot || dot[1] == '.')
		return false;
	const char* first = strchr(name, '.');
	return first && first != name && first[1] && ! strcasecmp(first, cert + 1);
}
VF_PROOF(peer)
{
	env();
	use_tls = true;
	char cn[64];
	int  size = labels(cn);
	bool has = vf_range(0, 7) > 0 && size > 0;
	/* the name asked for */
	if (vf_bool())
		labels(peer_name);
	else
	{
		strcpy(peer_name, cn);
		if (*peer_name == '*')
			*peer_name = 'x';
		for (char* p = peer_name; *p; p++)
			*p = vf_bool() ? toupper(*p) : tolower(*p);
	}
	if (! *peer_name)
		strcpy(peer_name, "a");
	bool expect = has && matches(cn, peer_name);
	/* a name with a zero byte inside is not the name before it */
	if (has && vf_range(0, 3) == 0)
	{
		memcpy(cn + size + 1, ".x", 3);
		size += 3;
		expect = false;
	}
	by_authority = vf_range(0, 2) == 0;
	certificate(file_cert, has ? cn : NULL, size);
	int ca = vf_range(0, 3);
	/* who signed it is known if it is itself given as the authority, or the one
	 * who signed it; nobody has to be if none is given and it signed itself */
	bool known = ca == 0 ? ! by_authority : ca == 1 ? ! by_authority : ca == 3 && by_authority;
	bool checked = vf_range(0, 3) > 0;
	tls_make(ca == 0 ? NULL : ca == 1 ? file_cert : ca == 2 ? file_other : file_authority, checked ? peer_name : NULL);
	pair(true, false);
	VF_REACH("peer");
	/* something the code under test may find on its stack */
	task_execute(&task, peer_both, NULL);
	by_authority = false;
	if (! known)
		VF_ENSURES(refused[0], "connection: a server with an unknown certificate is refused");
	else if (checked)
		VF_ENSURES(refused[0] == ! expect, "connection: a server is accepted exactly if its certificate is for the name asked for");
	else
		VF_ENSURES(! refused[0], "connection: any name will do if none is asked for");
	unpair();
	tls_context_free(&tls_server);
	tls_context_free(&tls_client);
	certificate(file_cert, "db.test", 7);
	env_free();
}

/* -- a client connects, again and again -- */
static Listen   listener;
static int      port, times;
static bool     by_path, client_ca_bad, client_ca_missing;
static Endpoint endpoint;
static int      served;
static void serve(void* arg)
{
	(void)arg;
	error_catch
	(
		for (;;)
		{
			int fd = listen_accept(&listener);
			Client* client = client_create();
			if (use_tls && ! by_path)
				tcp_set_tls(&client->tcp, &tls_server);
			tcp_set_fd(&client->tcp, fd);
			client_attach(client);
			bool bad = error_catch
			(
				client_accept(client);
				VF_ENSURES(client->accepted, "server: accepted");
				uint8_t* pos;
				int n;
				while ((n = readahead_read(&client->readahead, 10, &pos)) > 0)
				{
					struct iovec iov;
					iov.iov_base = pos;
					iov.iov_len  = n;
					tcp_write(&client->tcp, &iov, 1);
				}
				served++;
			);
			(void)bad;
			client_detach(client);
			client_free(client);
		}
	);
	listen_stop(&listener);
}
static void reconnect_main(void* arg)
{
	(void)arg;
	job_mgr_init(&rt.job_mgr);
	job_mgr_start(&rt.job_mgr, 2);

	/* listen */
	struct sockaddr_un un;
	struct sockaddr_in in;
	memset(&un, 0, sizeof(un));
	memset(&in, 0, sizeof(in));
	un.sun_family = AF_UNIX;
	snprintf(un.sun_path, sizeof(un.sun_path), "%s/socket", dir);
	unlink(un.sun_path);
	in.sin_family = AF_INET;
	in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	listen_init(&listener);
	listen_start(&listener, 16, by_path ? (struct sockaddr*)&un : (struct sockaddr*)&in);
	socklen_t size = sizeof(in);
	if (! by_path)
	{
		getsockname(listener.fd.fd, (struct sockaddr*)&in, &size);
		port = ntohs(in.sin_port);
	}
	uint64_t server = coroutine_create(serve, NULL);

	endpoint_init(&endpoint);
	opt_int_set(&endpoint.proto, use_tls ? PROTO_HTTPS : PROTO_HTTP);
	opt_string_set(&endpoint.host, S("127.0.0.1"));
	opt_int_set(&endpoint.port, port);
	if (by_path)
		opt_string_set(&endpoint.path, S(dir));
	if (use_tls)
	{
		opt_string_set(&endpoint.tls_server, S("db.test"));
		if (client_ca_bad)
			opt_string_set(&endpoint.tls_ca, S(client_ca_missing ? "/nowhere/ca.pem" : file_other));
	}
	Client* client = client_create();
	client_set_endpoint(client, &endpoint);
	bool secure = use_tls && ! by_path;
	for (int i = 0; i < times; i++)
	{
		bool bad = error_catch( client_connect(client) );
		VF_ENSURES(bad == (secure && client_ca_bad), "client: connects exactly if the server is the one asked for");
		VF_ENSURES(tcp_connected(&client->tcp) == ! bad, "client: connected only after success");
		if (! bad)
		{
			VF_ENSURES((client->tcp.tls.ssl != NULL) == secure, "client: every connection is encrypted if asked for, not only the first one");
			Str hello;
			Buf none;
			buf_init(&none);
			str_set(&hello, "hello", 5);
			tcp_write_pair_str(&client->tcp, &none, &hello);
			int n = 0;
			while (n < 5)
			{
				uint8_t* pos;
				int rc = readahead_read(&client->readahead, 5, &pos);
				VF_ENSURES(rc > 0 && ! memcmp(pos, "hello" + n, rc), "client: gets the reply of the server");
				n += rc;
			}
		}
		client_close(client);
		VF_ENSURES(! tcp_connected(&client->tcp) && buf_empty(&client->readahead.buf), "client: closed");
	}
	/* nobody there */
	if (vf_bool())
	{
		coroutine_kill(server);
		server = 0;
		unlink(un.sun_path);
		bool bad = error_catch( client_connect(client) );
		VF_ENSURES(bad && ! tcp_connected(&client->tcp) && client->tcp.fd.fd == -1 && ! client->tcp.poller, "client: a failed connection leaves nothing behind");
	}
	client_free(client);
	endpoint_free(&endpoint);
	if (server)
		coroutine_kill(server);
	job_mgr_stop(&rt.job_mgr);
	job_mgr_free(&rt.job_mgr);
}
VF_PROOF(reconnect)
{
	env();
	use_tls = vf_bool();
	by_path = vf_range(0, 3) == 0;
	client_ca_bad = vf_range(0, 3) == 0;
	client_ca_missing = vf_bool();
	times = vf_range(1, 3);
	served = 0;
	certificate(file_cert, "db.test", 7);
	tls_make(NULL, NULL);
	VF_REACH("reconnect");
	task_execute(&task, reconnect_main, NULL);
	tls_context_free(&tls_server);
	tls_context_free(&tls_client);
	env_free();
}
