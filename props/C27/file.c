//@proof history kind=native fuzz=2500 bound=seeded_histories_of_up_to_40_operations_with_short_transfers,_interruptions,_a_full_device_and_read_errors covers=file_create,file_open,file_write,file_writev,file_pwrite,file_pread,file_pread_buf,file_read_buf,file_truncate,file_seek_to_end,file_update_size,file_rename,file_import,file_import_stream,vfs_writev,iov_add
//@proof large kind=native fuzz=40 bound=file_sizes_around_2_and_4_GiB_(sparse) covers=file_open,file_seek_to_end,file_truncate,file_pwrite,file_pread,file_import
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include <ftw.h>

static int64_t io_left = -1;     /* bytes until the device is full */
static int64_t io_read = -1;     /* bytes until reading fails */
static int     io_short;
static int64_t can(int64_t* left, int64_t n)
{
	if (io_short && vf_range(0, 3) == 0)
	{
		errno = EINTR;
		return -1;
	}
	if (n && io_short)
		n = 1 + vf_range(0, 1000000) % n;
	if (*left >= 0)
	{
		if (*left == 0 && n)
		{
			errno = left == &io_left ? ENOSPC : EIO;
			return -1;
		}
		if (n > *left)
			n = *left;
		*left -= n;
	}
	return n;
}
static ssize_t vf_write(int fd, const void* p, size_t n)
{
	int64_t c = can(&io_left, n);
	return c < 0 ? -1 : write(fd, p, c);
}
static ssize_t vf_pwrite(int fd, const void* p, size_t n, off_t off)
{
	int64_t c = can(&io_left, n);
	return c < 0 ? -1 : pwrite(fd, p, c, off);
}
static ssize_t vf_read(int fd, void* p, size_t n)
{
	int64_t c = can(&io_read, n);
	return c < 0 ? -1 : read(fd, p, c);
}
static ssize_t vf_pread(int fd, void* p, size_t n, off_t off)
{
	int64_t c = can(&io_read, n);
	return c < 0 ? -1 : pread(fd, p, c, off);
}
static ssize_t vf_writev(int fd, const struct iovec* v, int n)
{
	if (n < 0 || n > IOV_MAX)
	{
		errno = EINVAL;
		return -1;
	}
	int64_t total = 0;
	for (int i = 0; i < n; i++)
		total += v[i].iov_len;
	int64_t c = can(&io_left, total), done = 0;
	if (c < 0)
		return -1;
	for (int i = 0; i < n && done < c; i++)
	{
		int64_t m = v[i].iov_len;
		if (m > c - done)
			m = c - done;
		if (m && write(fd, v[i].iov_base, m) != m)
			_exit(9);
		done += m;
	}
	return done;
}
#define write(a, b, c)     vf_write(a, b, c)
#define pwrite(a, b, c, d) vf_pwrite(a, b, c, d)
#define read(a, b, c)      vf_read(a, b, c)
#define pread(a, b, c, d)  vf_pread(a, b, c, d)
#define writev(a, b, c)    vf_writev(a, b, c)
#include "os/vfs.c"
#undef write
#undef pwrite
#undef read
#undef pread
#undef writev

static char dir[256], path[400];
static int rm_one(const char* p, const struct stat* s, int t, struct FTW* f)
{
	(void)s; (void)t; (void)f;
	remove(p);
	return 0;
}
static void scratch(void)
{
	vf_init();
	const char* s = getenv("VF_SCRATCH");
	if (! *dir)
	{
		snprintf(dir, sizeof(dir), "%s/vf27.XXXXXX", s ? s : ".");
		VF_REQUIRES(mkdtemp(dir) != NULL);
	}
	else
	{
		nftw(dir, rm_one, 16, FTW_DEPTH | FTW_PHYS);
		VF_REQUIRES(mkdir(dir, 0700) == 0);
	}
	snprintf(path, sizeof(path), "%s/a", dir);
	io_left = io_read = -1;
	io_short = 0;
}

#define CAP (1 << 18)
static uint8_t want[CAP], data[CAP], got[CAP];
static int64_t want_size;

static int any_data(int max)
{
	int n = vf_range(0, 9) ? (vf_range(0, 9) ? vf_range(0, 600) : 0) : vf_range(0, 40000);
	if (n > max)
		n = max;
	uint64_t x = vf_u64();
	for (int i = 0; i < n; i++, x = x * 6364136223846793005ull + 1)
		data[i] = x >> 40;
	return n;
}
static void same(File* f)
{
	/* what is in the file, read by other means */
	int fd = open(str_of(&f->path), O_RDONLY);
	VF_REQUIRES(fd >= 0);
	ssize_t n = read(fd, got, CAP);
	close(fd);
	VF_ENSURES(n == want_size && ! memcmp(got, want, n), "files: the file holds exactly what was written");
	VF_ENSURES((int64_t)f->size == want_size, "files: size");
}
static void do_write(File* f, bool vec)
{
	int n = any_data(CAP - want_size);
	bool fails = n && vf_range(0, 5) == 0;
	io_left = fails ? (int64_t)vf_range(0, n - 1) : -1;
	bool failed;
	if (vec)
	{
		Iov iov;
		iov_init(&iov);
		int at = 0, size = 0;
		int pieces = vf_range(0, 5) ? vf_range(1, 8) : vf_range(1000, 3000);
		for (int i = 0; i < pieces; i++)
		{
			int m = i == pieces - 1 ? n - at : vf_range(0, 3) ? (int)vf_range(0, (uint64_t)(2 * n / pieces + 1)) : 0;
			if (m > n - at)
				m = n - at;
			iov_add(&iov, data + at, m);
			at += m;
			size += m;
		}
		VF_ENSURES(iov.size == size && iov.iov_count == pieces, "files: size of a list of pieces");
		failed = error_catch( file_writev(f, iov_pointer(&iov), iov.iov_count) );
		iov_free(&iov);
	}
	else
	{
		uint64_t at = UINT64_MAX;
		failed = error_catch( at = file_write(f, data, n) );
		if (! failed)
			VF_ENSURES(at == (uint64_t)want_size, "files: a write returns the offset it was written to");
	}
	io_left = -1;
	VF_ENSURES(failed == fails, "files: a write that could not be completed is reported, others are not");
	if (failed)
	{
		/* the file may hold a part; callers cut it back */
		file_truncate(f, want_size);
		return;
	}
	memcpy(want + want_size, data, n);
	want_size += n;
}
static void do_read(File* f)
{
	int64_t off = vf_range(0, want_size), n = vf_range(0, 3) ? vf_range(0, want_size) : vf_range(0, 50);
	bool past = off + n > want_size;
	bool fails = n && ! past && vf_range(0, 5) == 0;
	if (n > CAP)
		n = CAP;
	Buf buf;
	buf_init(&buf);
	buf_write(&buf, "x", 1);
	io_read = fails ? (int64_t)vf_range(0, n - 1) : -1;
	memset(got, 0xee, sizeof(got));
	bool failed;
	bool as_buf = vf_bool();
	if (as_buf)
		failed = error_catch( file_pread_buf(f, &buf, n, off) );
	else
		failed = error_catch( file_pread(f, got, n, off) );
	io_read = -1;
	VF_ENSURES(failed == (past || fails), "files: reading past the end or from a failing device is reported, others are not");
	if (! failed)
	{
		if (as_buf)
			VF_ENSURES(buf_size(&buf) == n + 1 && buf.start[0] == 'x' && ! memcmp(buf.start + 1, want + off, n), "files: bytes read are the bytes of the file at that offset");
		else
			VF_ENSURES(! memcmp(got, want + off, n) && (n == CAP || got[n] == 0xee), "files: bytes read are the bytes of the file at that offset");
	}
	else if (as_buf)
		VF_ENSURES(buf_size(&buf) == 1, "files: a failed read adds nothing");
	buf_free(&buf);
}
static void do_import(File* f)
{
	bool fails = want_size && vf_range(0, 5) == 0;
	io_read = fails ? (int64_t)vf_range(0, want_size - 1) : -1;
	Buf* buf = NULL;
	Buf  buf2;
	buf_init(&buf2);
	bool stream = vf_bool(), failed;
	if (stream)
		failed = error_catch( file_import_stream(&buf2, "%s", str_of(&f->path)) );
	else
		failed = error_catch( buf = file_import("%s", str_of(&f->path)) );
	io_read = -1;
	VF_ENSURES(failed == fails, "files: a failed import is reported, others are not");
	Buf* b = stream ? &buf2 : buf;
	if (! failed)
		VF_ENSURES(buf_size(b) == want_size && ! memcmp(b->start, want, want_size), "files: an import returns the whole file");
	if (buf)
		buf_free(buf);
	buf_free(&buf2);
}
VF_PROOF(history)
{
	scratch();
	io_short = vf_bool();
	want_size = 0;
	File f;
	file_init(&f);
	file_create(&f, path);
	int n = vf_range(1, 40);
	for (int i = 0; i < n; i++)
	{
		switch (vf_range(0, 11)) {
		case 0: case 1: case 2:
			do_write(&f, false);
			break;
		case 3: case 4: case 5:
			do_write(&f, true);
			break;
		case 6:
		{
			/* overwrite */
			int m = any_data(want_size);
			int64_t off = vf_range(0, want_size - m);
			bool fails = m && vf_range(0, 5) == 0;
			int64_t left = fails ? (int64_t)vf_range(0, m - 1) : -1;
			io_left = left;
			bool failed = error_catch( file_pwrite(&f, data, m, off) );
			io_left = -1;
			VF_ENSURES(failed == fails, "files: a write that could not be completed is reported, others are not");
			memcpy(want + off, data, failed ? left : m);
			break;
		}
		case 7:
			want_size = vf_range(0, want_size);
			file_truncate(&f, want_size);
			break;
		case 8:
		{
			/* other name, same file */
			char to[500];
			snprintf(to, sizeof(to), "%s/%s", dir, vf_bool() ? "b" : "a");
			file_rename(&f, to);
			VF_ENSURES(! strcmp(str_of(&f.path), to), "files: name");
			break;
		}
		case 9:
		{
			char from[500];
			snprintf(from, sizeof(from), "%s", str_of(&f.path));
			file_close(&f);
			VF_ENSURES(f.fd == -1, "files: closed");
			file_open(&f, from);
			file_seek_to_end(&f);
			break;
		}
		case 10:
		{
			/* somebody else appends */
			int fd = open(str_of(&f.path), O_WRONLY|O_APPEND);
			int m = any_data(CAP - want_size);
			VF_REQUIRES(fd >= 0 && write(fd, data, m) == m);
			close(fd);
			memcpy(want + want_size, data, m);
			want_size += m;
			VF_ENSURES(file_update_size(&f) == (m > 0), "files: a size change is noticed");
			file_seek_to_end(&f);
			break;
		}
		case 11:
			do_import(&f);
			break;
		}
		same(&f);
		do_read(&f);
	}
	/* sequential reading */
	file_close(&f);
	snprintf(path, sizeof(path), "%s/a", dir);
	if (access(path, F_OK))
		snprintf(path, sizeof(path), "%s/b", dir);
	file_open_rdonly(&f, path);
	Buf buf;
	buf_init(&buf);
	int64_t left = want_size;
	while (left > 0)
	{
		int m = 1 + vf_range(0, 100000) % left;
		file_read_buf(&f, &buf, m);
		left -= m;
	}
	VF_ENSURES(buf_size(&buf) == want_size && ! memcmp(buf.start, want, want_size), "files: sequential reads return the file");
	VF_REACH("history");
	buf_free(&buf);
	file_close(&f);
}
VF_PROOF(large)
{
	scratch();
	/* a sparse file around the limits of 32-bit sizes */
	static const uint64_t around[] = { 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x1ffffffffull };
	uint64_t size = around[vf_range(0, 4)] + vf_range(0, 4) - 2;
	File f;
	file_init(&f);
	file_create(&f, path);
	file_truncate(&f, size);
	VF_ENSURES(f.size == size && vfs_size(path) == (int64_t)size, "files: size of a large file");
	file_write(&f, "abc", 3);
	VF_ENSURES(f.size == size + 3 && vfs_size(path) == (int64_t)size + 3, "files: size of a large file");
	file_close(&f);
	file_open(&f, path);
	VF_ENSURES(f.size == size + 3, "files: size of a large file");
	file_seek_to_end(&f);
	char c[8];
	file_pread(&f, c, 3, size);
	VF_ENSURES(! memcmp(c, "abc", 3), "files: data at a large offset");
	file_pwrite(&f, "xy", 2, size + 1);
	file_pread(&f, c, 4, size - 1);
	VF_ENSURES(! memcmp(c, "\0axy", 4), "files: data at a large offset");
	file_close(&f);
	/* buffers are limited to 2 GiB: a larger file is refused, never cut */
	if (size + 3 > INT32_MAX)
	{
		bool failed = error_catch( file_import("%s", path) );
		VF_ENSURES(failed, "files: an import returns the whole file, or fails");
	}
	VF_REACH("large");
}
