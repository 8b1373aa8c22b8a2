#pragma once
/*
 * The file system with faults, for native harnesses. Includes os/vfs.c.
 *
 * step_n: the call at which it happens (-1: never); step_crash: a crash
 * (the process exits with 9, data that was not synced is lost from some
 * byte on), or a call that fails. lcg chooses what is lost.
 */
#include <sys/wait.h>
/* every call to the file system passes here */
static void step(int fd);
int     real_open(const char*, int, int);
int     real_close(int);
int     real_unlink(const char*);
int     real_rename(const char*, const char*);
int64_t real_write(int, void*, uint64_t);
int64_t real_pwrite(int, void*, uint64_t, uint64_t);
int64_t real_writev(int, struct iovec*, int);
int     real_fsync(int);
int     real_fdatasync(int);
int     real_truncate(int, uint64_t);
#define vfs_open      real_open
#define vfs_close     real_close
#define vfs_unlink    real_unlink
#define vfs_rename    real_rename
#define vfs_write     real_write
#define vfs_pwrite    real_pwrite
#define vfs_writev    real_writev
#define vfs_fsync     real_fsync
#define vfs_fdatasync real_fdatasync
#define vfs_truncate  real_truncate
#include "os/vfs.c"
#undef vfs_open
#undef vfs_close
#undef vfs_unlink
#undef vfs_rename
#undef vfs_write
#undef vfs_pwrite
#undef vfs_writev
#undef vfs_fsync
#undef vfs_fdatasync
#undef vfs_truncate

static int  step_n = -1;          /* the call at which it happens */
static bool step_crash;           /* a crash, or a call that fails */
static int  steps;
static int  fds[64], fds_open[64];
static struct { int fd; char path[PATH_MAX]; int64_t synced; } files[64];
static int  files_count;

static uint64_t lcg;
static uint64_t lcg_next(uint64_t n)
{
	lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
	return n ? (lcg >> 33) % n : 0;
}

static int file_of(int fd)
{
	for (int i = files_count - 1; i >= 0; i--)
		if (files[i].fd == fd)
			return i;
	return -1;
}

/* what was not synced is there in part, or not at all */
static void lose(void)
{
	for (int i = 0; i < files_count; i++)
	{
		if (files[i].synced < 0)
			continue;
		struct stat st;
		char path[PATH_MAX];
		/* by its descriptor: it may have another name by now */
		sprintf(path, "/proc/self/fd/%d", fds_open[i]);
		if (fstat(fds_open[i], &st) == -1)
			continue;
		if (st.st_size > files[i].synced)
		{
			int rc = ftruncate(fds_open[i], files[i].synced + lcg_next(st.st_size - files[i].synced + 1));
			(void)rc;
		}
	}
}

static bool fails(void)
{
	if (step_n < 0)
		return false;
	if (steps++ != step_n)
		return false;
	if (step_crash)
	{
		lose();
		_exit(9);
	}
	errno = ENOSPC;
	return true;
}

int vfs_open(const char* path, int flags, int mode)
{
	if (fails())
		return -1;
	int fd = real_open(path, flags, mode);
	if (fd >= 0 && step_n >= 0 && (flags & (O_RDWR|O_WRONLY)) && files_count < 64)
	{
		files[files_count].fd     = fd;
		files[files_count].synced = lseek(fd, 0, SEEK_END);
		lseek(fd, 0, SEEK_SET);
		fds_open[files_count]     = dup(fd);
		files_count++;
	}
	return fd;
}
int vfs_close(int fd)
{
	int i = file_of(fd);
	if (i >= 0)
		files[i].fd = -1;
	return real_close(fd);
}
int vfs_unlink(const char* path)               { return fails() ? -1 : real_unlink(path); }
int vfs_rename(const char* a, const char* b)   { return fails() ? -1 : real_rename(a, b); }
static void wrote(int fd, int64_t at)
{
	int i = file_of(fd);
	if (i >= 0 && files[i].synced > at)
		files[i].synced = at;
}
int64_t vfs_write(int fd, void* data, uint64_t size)
{
	int64_t at = lseek(fd, 0, SEEK_CUR);
	if (fails())
	{
		/* a part of it is there */
		real_write(fd, data, lcg_next(size + 1));
		errno = ENOSPC;
		return -1;
	}
	wrote(fd, at);
	return real_write(fd, data, size);
}
int64_t vfs_pwrite(int fd, void* data, uint64_t size, uint64_t offset)
{
	if (fails())
		return -1;
	wrote(fd, offset);
	return real_pwrite(fd, data, size, offset);
}
int64_t vfs_writev(int fd, struct iovec* iov, int count)
{
	if (fails())
		return -1;
	wrote(fd, lseek(fd, 0, SEEK_CUR));
	return real_writev(fd, iov, count);
}
static void synced(int fd)
{
	int i = file_of(fd);
	if (i >= 0)
		files[i].synced = INT64_MAX;
}
int vfs_fsync(int fd)                          { if (fails()) return -1; synced(fd); return 0; }
int vfs_fdatasync(int fd)                      { if (fails()) return -1; synced(fd); return 0; }
int vfs_truncate(int fd, uint64_t size)        { return fails() ? -1 : real_truncate(fd, size); }

