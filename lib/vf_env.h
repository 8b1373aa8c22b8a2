#pragma once
/*
 * vf_env.h -- environment the real code runs in inside a harness.
 * Include after the amelie headers.  Everything here is trusted (listed in
 * the evidence as environment stubs).
 */
__thread void* am_share;
__thread void* am_runtime;
__thread Task* am_task;

static Task      vf_task;
static Coroutine vf_coro;
static BufMgr    vf_buf_mgr;

bool   vf_may_throw;
bool   vf_must_throw;
void (*vf_on_throw)(void);

#ifdef VF_CBMC

static inline void vf_init(void)
{
	am_task = &vf_task;
	vf_task.coroutine_mgr.current = &vf_coro;
	vf_task.buf_mgr = &vf_buf_mgr;
	vf_may_throw = false;
	vf_on_throw  = NULL;
}

void report(const char* file, const char* function, int line,
            const char* fmt, ...)
{
	(void)file; (void)function; (void)line; (void)fmt;
}

void vf_throw(void)
{
	__CPROVER_assert(vf_may_throw, "VF: no error is raised where the contract does not allow one");
	if (vf_on_throw)
		vf_on_throw();
	__CPROVER_assume(0);
}

void report_error(const char* file, const char* function, int line,
                  int code, const char* fmt, ...)
{
	(void)file; (void)function; (void)line; (void)code; (void)fmt;
	vf_throw();
}

void report_panic(const char* file, const char* function, int line,
                  const char* fmt, ...)
{
	(void)file; (void)function; (void)line; (void)fmt;
	__CPROVER_assert(0, "VF: no panic");
	__CPROVER_assume(0);
}

#ifdef VF_NO_REALLOC
/* the harness sizes its buffers so that the code never has to grow them */
void* realloc(void* p, size_t n)
{
	(void)n;
	__CPROVER_assert(0, "VF-CAPACITY: harness buffer is large enough");
	__CPROVER_assume(0);
	return p;
}
#endif

#ifdef VF_WORD_MEMMOVE
#ifdef VF_BYTE_COPY
/* memcpy / memset byte by byte, at most VF_BYTE_COPY bytes (same effect as libc) */
void* memcpy(void* d, const void* s, size_t n)
{
	__CPROVER_assert(n <= VF_BYTE_COPY, "VF-CAPACITY: memcpy model");
	for (size_t i = 0; i < n; i++)
		((char*)d)[i] = ((const char*)s)[i];
	return d;
}
void* memset(void* d, int c, size_t n)
{
	__CPROVER_assert(n <= VF_BYTE_COPY, "VF-CAPACITY: memset model");
	for (size_t i = 0; i < n; i++)
		((char*)d)[i] = (char)c;
	return d;
}
#endif
/* memmove over arrays of pointers: word by word through a copy, at most
 * VF_WORD_MEMMOVE words (same effect as libc memmove for such arguments) */
void* memmove(void* d, const void* s, size_t n)
{
	void* tmp[VF_WORD_MEMMOVE];
	__CPROVER_assert(n % 8 == 0 && n / 8 <= VF_WORD_MEMMOVE, "VF-CAPACITY: memmove model");
	for (int i = 0; i < VF_WORD_MEMMOVE; i++)
		if ((size_t)i * 8 < n)
			tmp[i] = ((void* const*)s)[i];
	for (int i = 0; i < VF_WORD_MEMMOVE; i++)
		if ((size_t)i * 8 < n)
			((void**)d)[i] = tmp[i];
	return d;
}
#ifdef VF_WORD_MEMCPY
/* memcpy over arrays of 8-byte words (same effect as libc) */
void* memcpy(void* d, const void* s, size_t n)
{
	__CPROVER_assert(n % 8 == 0 && n / 8 <= VF_WORD_MEMMOVE, "VF-CAPACITY: memcpy model");
	for (int i = 0; i < VF_WORD_MEMMOVE; i++)
		if ((size_t)i * 8 < n)
			((uint64_t*)d)[i] = ((const uint64_t*)s)[i];
	return d;
}
#endif
#endif

/* glibc assert() */
void __assert_fail(const char* a, const char* b, unsigned c, const char* d)
{
	(void)a; (void)b; (void)c; (void)d;
	__CPROVER_assert(0, "VF: assertion in the code holds");
	__CPROVER_assume(0);
}

/* code after these includes: deferred cleanup handlers are not modelled by
 * cbmc (attribute cleanup); make that explicit. */
#undef defer_as
#define defer_as(self, func, func_arg, on_error) \
	do { } while (0)

#else /* VF_NATIVE */

#include <sys/mman.h>
#include <sys/stat.h>

static uint64_t* vf_log;          /* [0] = count, then values */
static uint64_t  vf_log_dummy[1 << 16];
#define VF_LOG_MAX ((1 << 16) - 2)
static uint64_t* vf_in;
static uint64_t  vf_in_count, vf_in_pos;
static bool      vf_replaying;
static uint64_t  vf_rng;
static jmp_buf   vf_skip_jmp;
static uint64_t  vf_hits;
static Exception* vf_top;
static const char* vf_quiet;

static uint64_t vf_rand(void)
{
	uint64_t z = (vf_rng += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

static uint64_t vf_put(uint64_t v)
{
	if (vf_log[0] < VF_LOG_MAX)
	{
		vf_log[1 + vf_log[0]] = v;
		vf_log[0]++;
	}
	return v;
}

uint64_t vf_u64(void)
{
	if (vf_replaying)
		return vf_in_pos < vf_in_count ? vf_in[vf_in_pos++] : 0;
	uint64_t v;
	switch (vf_rand() % 8) {
	case 0: v = vf_rand() % 4; break;
	case 1: v = vf_rand() & 0xff; break;
	case 2: v = (1ull << (vf_rand() % 64)) + (vf_rand() % 3) - 1; break;
	case 3: v = -(vf_rand() % 4); break;
	case 4: v = vf_rand() >> (vf_rand() % 64); break;
	case 5: v = -(vf_rand() >> (vf_rand() % 64)); break;
	case 6: v = 0x20 + vf_rand() % 0x60; break;
	default: v = vf_rand(); break;
	}
	return vf_put(v);
}

uint64_t vf_range(uint64_t lo, uint64_t hi)
{
	if (vf_replaying) {
		uint64_t v = vf_u64();
		VF_REQUIRES(v >= lo && v <= hi);
		return v;
	}
	uint64_t span = hi - lo + 1, v;
	if (span == 0)
		return vf_u64();
	if (span <= 64)
		v = lo + vf_rand() % span;
	else
		switch (vf_rand() % 6) {
		case 0: v = lo + vf_rand() % 4; break;
		case 1: v = hi - vf_rand() % 4; break;
		case 2: v = lo + (vf_rand() >> (vf_rand() % 64)) % span; break;
		default: v = lo + vf_rand() % span; break;
		}
	return vf_put(v);
}

int64_t vf_srange(int64_t lo, int64_t hi)
{
	if (vf_replaying) {
		int64_t v = (int64_t)vf_u64();
		VF_REQUIRES(v >= lo && v <= hi);
		return v;
	}
	uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
	uint64_t off;
	if (span && span <= 64)
		off = vf_rand() % span;
	else
		switch (vf_rand() % 6) {
		case 0: off = vf_rand() % 4; break;
		case 1: off = (uint64_t)hi - (uint64_t)lo - vf_rand() % 4; break;
		case 2: off = (uint64_t)(0 - lo) + vf_rand() % 8 - 4;
			if (span && off >= span) off = vf_rand() % span;
			break;
		default: off = span ? vf_rand() % span : vf_rand(); break;
		}
	return (int64_t)vf_put((uint64_t)lo + off);
}

void vf_require_failed(void) { longjmp(vf_skip_jmp, 1); }
void vf_reached(const char* m) { (void)m; vf_hits++; }
void vf_ensure_failed(const char* m, const char* f, int l)
{
	printf("VF-FAILED: %s (%s:%d)\n", m, f, l);
	fflush(stdout);
	_exit(3);
}

#ifdef VF_REAL_REPORT
/* the unit brings base/report.c */
#else
void report(const char* file, const char* function, int line,
            const char* fmt, ...)
{
	(void)file; (void)function; (void)line; (void)fmt;
}

#endif
/* where the last error was raised: for the text of a failure only */
const char* vf_raised_file = "";
int         vf_raised_line;

#ifndef VF_REAL_REPORT
void report_error(const char* file, const char* function, int line,
                  int code, const char* fmt, ...)
{
	(void)code;
	vf_raised_file = file;
	vf_raised_line = line;
	if (am_self()->exception_mgr.last == vf_top && !vf_may_throw)
	{
		va_list a;
		va_start(a, fmt);
		printf("raised at %s:%d (%s): ", file, line, function);
		vprintf(fmt, a);
		printf("\n");
		va_end(a);
		vf_ensure_failed("no error is raised where the contract does not allow one", file, line);
	}
	exception_mgr_throw(&am_self()->exception_mgr);
}

void report_panic(const char* file, const char* function, int line,
                  const char* fmt, ...)
{
	(void)function; (void)fmt;
	vf_ensure_failed("no panic", file, line);
}
#endif

static inline void vf_init(void)
{
	vf_on_throw  = NULL;
}

typedef struct { const char* name; void (*fn)(void); } VfEntry;
#include "vf_table.inc"

static int vf_run_one(void (*fn)(void))
{
	Exception top = { .prev = NULL, .triggered = false, .defer_stack = NULL };
	vf_top = &top;
	am_task = &vf_task;
	vf_task.coroutine_mgr.current = &vf_coro;
	vf_task.buf_mgr = &vf_buf_mgr;
	vf_coro.exception_mgr.last = &top;
	vf_may_throw = false;
	vf_must_throw = false;
	vf_on_throw = NULL;
	vf_log[0] = 0;
	if (setjmp(vf_skip_jmp))
		return 1;
	if (setjmp(top.buf) == 0)
		fn();
	else if (vf_on_throw)
		vf_on_throw();
	return 0;
}

/* vf_native <entry> fuzz <iters> <seed> <logfile> | <entry> replay <file> */
int main(int argc, char** argv)
{
	if (argc < 4) return 9;
	void (*fn)(void) = NULL;
	for (size_t i = 0; i < sizeof(vf_table) / sizeof(*vf_table); i++)
		if (!strcmp(vf_table[i].name, argv[1]))
			fn = vf_table[i].fn;
	if (!fn) return 9;
	buf_mgr_init(&vf_buf_mgr);
	arena_init(&vf_coro.arena, 4096 - sizeof(ArenaPage));
	list_init(&vf_coro.locks);
	error_init(&vf_coro.error);
	vf_log = vf_log_dummy;
	if (!strcmp(argv[2], "replay"))
	{
		FILE* f = fopen(argv[3], "r");
		if (!f) return 9;
		vf_in = calloc(1 << 16, 8);
		char line[4096];
		while (fgets(line, sizeof(line), f))
		{
			if (strncmp(line, "in ", 3)) continue;
			if (vf_in_count < (1 << 16))
				vf_in[vf_in_count++] = strtoull(line + 3, NULL, 0);
		}
		fclose(f);
		vf_replaying = true;
		int rc = vf_run_one(fn);
		printf("VF-REPLAY: %s\n", rc ? "precondition not met" : "contract held");
		return 0;
	}
	uint64_t iters = strtoull(argv[3], NULL, 0);
	uint64_t seed  = strtoull(argv[4], NULL, 0);
	int fd = open(argv[5], O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || ftruncate(fd, sizeof(vf_log_dummy)) < 0) return 9;
	vf_log = mmap(NULL, sizeof(vf_log_dummy), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	uint64_t skipped = 0, nontrivial = 0;
	for (uint64_t i = 0; i < iters; i++)
	{
		vf_rng = seed * 0x100000001b3ull + i * 7919;
		uint64_t h = vf_hits;
		if (vf_run_one(fn)) skipped++;
		else if (vf_hits != h) nontrivial++;
	}
	printf("VF-FUZZ: iters=%lu skipped=%lu nontrivial=%lu\n",
	       (unsigned long)iters, (unsigned long)skipped, (unsigned long)nontrivial);
	return 0;
}
#endif
