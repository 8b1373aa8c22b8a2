//@proof read_all loops=1 fallback=read_some unwind=2 covers=vfs_read
//@proof pread_all loops=1 fallback=pread_some unwind=2 covers=vfs_pread
//@proof write_all loops=1 fallback=write_some unwind=2 covers=vfs_write
//@proof pwrite_all loops=1 fallback=pwrite_some unwind=2 covers=vfs_pwrite
//@proof read_some kind=bounded unwind=4 bound=up_to_2_system_calls_per_transfer,_thorough_3 covers=vfs_read
//@proof pread_some kind=bounded unwind=4 bound=up_to_2_system_calls_per_transfer,_thorough_3 covers=vfs_pread
//@proof write_some kind=bounded unwind=4 bound=up_to_2_system_calls_per_transfer,_thorough_3 covers=vfs_write
//@proof pwrite_some kind=bounded unwind=4 bound=up_to_2_system_calls_per_transfer,_thorough_3 covers=vfs_pwrite
//@proof read_raw kind=bounded unwind=5 bound=up_to_4_interruptions_in_a_row covers=vfs_read_raw
//@proof writev kind=bounded unwind=4 ttimeout=600 fuzz=60000 bound=up_to_2_pieces_of_255_bytes_and_2_system_calls_without_interruptions_(thorough_3),_natively_6_pieces covers=vfs_writev
//@proof pwritev kind=bounded unwind=4 ttimeout=600 fuzz=60000 bound=up_to_2_pieces_of_255_bytes_and_2_system_calls_without_interruptions_(thorough_3),_natively_6_pieces covers=vfs_pwritev
//@loopinv (vfs_read\(int fd[^}]*?while \(n != size\))(\s*\{\s*int r;\s*)do \{([^}]*)\} while \((r == -1 [^;]*)\); ==> \1 __CPROVER_assigns(n, io_errno, io_done, io_bad, io_calls) __CPROVER_loop_invariant(n <= size && io_done == n && size == io_total && ! io_bad)\2 do __CPROVER_assigns(r, io_errno, io_done, io_bad, io_calls) __CPROVER_loop_invariant(n < size && io_done == n && ! io_bad) {\3} while (\4);
//@loopinv (vfs_pread\(int fd[^}]*?while \(n != size\))(\s*\{\s*int r;\s*)do \{([^}]*)\} while \((r == -1 [^;]*)\); ==> \1 __CPROVER_assigns(n, io_errno, io_done, io_bad, io_calls) __CPROVER_loop_invariant(n <= size && io_done == n && size == io_total && ! io_bad)\2 do __CPROVER_assigns(r, io_errno, io_done, io_bad, io_calls) __CPROVER_loop_invariant(n < size && io_done == n && ! io_bad) {\3} while (\4);
//@loopinv (vfs_write\(int fd[^}]*?while \(n != size\))(\s*\{\s*int r;\s*)do \{([^}]*)\} while \((r == -1 [^;]*)\); ==> \1 __CPROVER_assigns(n, io_errno, io_done, io_bad, io_calls) __CPROVER_loop_invariant(n <= size && io_done == n && size == io_total && ! io_bad)\2 do __CPROVER_assigns(r, io_errno, io_done, io_bad, io_calls) __CPROVER_loop_invariant(n < size && io_done == n && ! io_bad) {\3} while (\4);
//@loopinv (vfs_pwrite\(int fd[^}]*?while \(n != size\))(\s*\{\s*int r;\s*)do \{([^}]*)\} while \((r == -1 [^;]*)\); ==> \1 __CPROVER_assigns(n, io_errno, io_done, io_bad, io_calls) __CPROVER_loop_invariant(n <= size && io_done == n && size == io_total && ! io_bad)\2 do __CPROVER_assigns(r, io_errno, io_done, io_bad, io_calls) __CPROVER_loop_invariant(n < size && io_done == n && ! io_bad) {\3} while (\4);
#include <vf.h>
#include <amelie_runtime>
/*
 * The operating system may transfer less than was asked for, be interrupted
 * by a signal, report the end of the file or fail, at every call.
 */
static uint64_t io_total;        /* bytes to transfer */
static uint64_t io_done;         /* bytes transferred so far */
static bool     io_bad;          /* a call has failed (or the file ended) */
static int      io_calls, io_limit;
static uint64_t io_offset;
static char*    io_base;
static int      io_errno;
#undef  errno
#define errno io_errno
#define IO_FD 7
/* at most what linux transfers in one call */
static int64_t transfer(uint64_t n)
{
	if (! n)
		return 0;
	uint64_t r = vf_range(1, 0x7ffff000);
#ifdef VF_CBMC
	VF_REQUIRES(r <= n);
#else
	if (r > n)
		r = vf_bool() ? n : 1 + r % n;
#endif
	return r;
}
static int64_t io(int fd, char* p, uint64_t n)
{
	VF_ENSURES(fd == IO_FD, "file i/o: the right file");
	VF_ENSURES(! io_bad, "file i/o: nothing is transferred after a failure");
	VF_ENSURES(p == io_base + io_done, "file i/o: transfers continue where the last one stopped");
	VF_ENSURES(n <= io_total - io_done && n > 0, "file i/o: only what is left is asked for");
	if (io_limit)
		VF_REQUIRES(io_calls < io_limit);
	io_calls++;
	switch (vf_range(0, 3)) {
	case 0:
		io_errno = EINTR;
		return -1;
	case 1:
		io_errno = EIO;
		io_bad = true;
		return -1;
	case 2:
		io_bad = true;
		return 0;
	}
	int64_t r = transfer(n);
	io_done += r;
	return r;
}
#ifdef VF_CBMC
static int64_t io_at(int fd, char* p, uint64_t n, uint64_t off)
#else
static int64_t io_at(int fd, char* p, uint64_t n, uint64_t off)
#endif
{
	VF_ENSURES(off == io_offset + io_done, "file i/o: transfers continue at the offset the last one stopped");
	return io(fd, p, n);
}
#define read(fd, p, n)         io(fd, (char*)(p), n)
#define write(fd, p, n)        io(fd, (char*)(p), n)
#define pread(fd, p, n, off)   io_at(fd, (char*)(p), n, off)
#define pwrite(fd, p, n, off)  io_at(fd, (char*)(p), n, off)

/* vectored: pieces are taken from the front */
#ifdef VF_CBMC
#define PIECE 255
#define PIECES 2
#else
#define PIECE (vf_bool() ? 5 : 0x7fffffffu)
#define PIECES 6
#endif
static char* piece_base[PIECES];
static uint64_t piece_len[PIECES];
static int pieces;
static int at;                   /* current piece, and offset in it */
static uint64_t at_offset;
static struct iovec vec[PIECES];
static int64_t iov_io(int fd, const struct iovec* v, int n)
{
	VF_ENSURES(fd == IO_FD, "file i/o: the right file");
	VF_ENSURES(! io_bad, "file i/o: nothing is transferred after a failure");
	VF_ENSURES(n > 0 && n <= pieces, "file i/o: number of pieces");
	if (io_limit)
		VF_REQUIRES(io_calls < io_limit);
	io_calls++;
	/* what is asked for now is exactly what was not transferred yet: pieces
	 * from the current position on (empty ones may stay or be dropped) */
	int from = pieces - n;
	VF_ENSURES(from <= at, "file i/o: no piece is left out");
	uint64_t ask = 0;
	for (int i = 0; i < PIECES; i++)
	{
		if (i < from || i >= pieces)
			continue;
		uint64_t skip = i < at ? piece_len[i] : i == at ? at_offset : 0;
		VF_ENSURES(v[i - from].iov_len == piece_len[i] - skip, "file i/o: vectored transfers continue where the last one stopped");
		VF_ENSURES(piece_len[i] == skip || v[i - from].iov_base == piece_base[i] + skip, "file i/o: vectored transfers continue where the last one stopped (data)");
		ask += piece_len[i] - skip;
	}
	switch (vf_range(0, 2)) {
#ifndef VF_CBMC
	case 0:
		io_errno = EINTR;
		return -1;
#endif
	case 1:
		io_errno = EIO;
		io_bad = true;
		return -1;
	}
	int64_t r = transfer(ask);
	VF_NATIVE_ONLY(if (vf_bool() && at < pieces && piece_len[at] - at_offset > 0) r = piece_len[at] - at_offset;)
	io_done += r;
	uint64_t left = r;
	for (int i = 0; i < PIECES; i++)
	{
		if (i != at || i >= pieces)
			continue;
		if (left < piece_len[i] - at_offset)
		{
			at_offset += left;
			break;
		}
		left -= piece_len[i] - at_offset;
		at_offset = 0;
		at++;
	}
	return r;
}
static int64_t iov_io_at(int fd, const struct iovec* v, int n, uint64_t off)
{
	VF_ENSURES(off == io_offset + io_done, "file i/o: transfers continue at the offset the last one stopped");
	return iov_io(fd, v, n);
}
#define writev(fd, v, n)        iov_io(fd, v, n)
#define pwritev(fd, v, n, off)  iov_io_at(fd, v, n, off)
#include "os/vfs.c"
#undef read
#undef write
#undef pread
#undef pwrite
#undef writev
#undef pwritev
#include <vf_env.h>

#ifdef VF_TIER_THOROUGH
#define LIMIT 3
#else
#define LIMIT 2
#endif
static void start(int limit)
{
	vf_init();
	io_done   = 0;
	io_bad    = false;
	io_calls  = 0;
	io_errno  = 0;
	io_limit  = limit;
	io_total  = vf_range(0, (uint64_t)1 << 40);
	io_offset = vf_range(0, (uint64_t)1 << 50);
	io_base   = (char*)(uintptr_t)0x10000;
#ifndef VF_CBMC
	io_limit = 5000;
#endif
}
static void complete(int64_t rc)
{
	VF_REACH("transfer");
	VF_ENSURES(io_bad == (rc == -1), "file i/o: a failure is reported, and nothing else is");
	VF_ENSURES(rc == -1 || (rc == (int64_t)io_total && io_done == io_total), "file i/o: success means every byte was transferred");
}
VF_PROOF(read_all)    { start(0); complete(vfs_read(IO_FD, io_base, io_total)); }
VF_PROOF(pread_all)   { start(0); complete(vfs_pread(IO_FD, io_offset, io_base, io_total)); }
VF_PROOF(write_all)   { start(0); complete(vfs_write(IO_FD, io_base, io_total)); }
VF_PROOF(pwrite_all)  { start(0); complete(vfs_pwrite(IO_FD, io_base, io_total, io_offset)); }
VF_PROOF(read_some)   { start(LIMIT); complete(vfs_read(IO_FD, io_base, io_total)); }
VF_PROOF(pread_some)  { start(LIMIT); complete(vfs_pread(IO_FD, io_offset, io_base, io_total)); }
VF_PROOF(write_some)  { start(LIMIT); complete(vfs_write(IO_FD, io_base, io_total)); }
VF_PROOF(pwrite_some) { start(LIMIT); complete(vfs_pwrite(IO_FD, io_base, io_total, io_offset)); }
VF_PROOF(read_raw)
{
	start(4);
	VF_REQUIRES(io_total > 0);
	int64_t rc = vfs_read_raw(IO_FD, io_base, io_total);
	VF_REACH("raw");
	VF_ENSURES(io_done ? rc == (int64_t)io_done : rc == (io_errno == EIO && io_bad ? -1 : rc == 0 ? 0 : -1), "file i/o: a raw read returns what was read");
	VF_ENSURES(io_bad == (io_done == 0), "file i/o: a raw read stops at the first answer");
}
static void start_pieces(int limit)
{
	start(limit);
	pieces = vf_range(1, PIECES);
	io_total = 0;
	at = at_offset = 0;
	for (int i = 0; i < PIECES; i++)
		if (i < pieces)
		{
			piece_base[i] = (char*)(uintptr_t)((uint64_t)(i + 1) << 32);
			piece_len[i] = vf_range(0, PIECE);
			io_total += piece_len[i];
			vec[i].iov_base = piece_base[i];
			vec[i].iov_len = piece_len[i];
		}
}
VF_PROOF(writev)      { start_pieces(LIMIT); complete(vfs_writev(IO_FD, vec, pieces)); }
VF_PROOF(pwritev)     { start_pieces(LIMIT); complete(vfs_pwritev(IO_FD, io_offset, vec, pieces)); }
