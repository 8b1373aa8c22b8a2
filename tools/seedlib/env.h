/* minimal environment for a demonstration: errors are caught with TRY */
#include <setjmp.h>
__thread void* am_share;
__thread void* am_runtime;
__thread Task* am_task;
static Task      demo_task;
static Coroutine demo_coro;
static BufMgr    demo_buf_mgr;
static char      demo_msg[512];

void report(const char* file, const char* function, int line, const char* fmt, ...)
{ (void)file; (void)function; (void)line; (void)fmt; }
void report_error(const char* file, const char* function, int line, int code, const char* fmt, ...)
{
	(void)file; (void)function; (void)line; (void)code;
	va_list a;
	va_start(a, fmt);
	vsnprintf(demo_msg, sizeof(demo_msg), fmt, a);
	va_end(a);
	exception_mgr_throw(&demo_coro.exception_mgr);
	abort();
}
void report_panic(const char* file, const char* function, int line, const char* fmt, ...)
{ (void)function; (void)fmt; fprintf(stderr, "panic %s:%d\n", file, line); exit(1); }

static inline void demo_init(void)
{
	am_task = &demo_task;
	demo_task.coroutine_mgr.current = &demo_coro;
	demo_task.buf_mgr = &demo_buf_mgr;
	buf_mgr_init(&demo_buf_mgr);
	arena_init(&demo_coro.arena, 4096 - sizeof(ArenaPage));
	list_init(&demo_coro.locks);
	error_init(&demo_coro.error);
}
/* runs fn(arg); true when it raised an error */
static inline bool demo_fails(void (*fn)(void*), void* arg)
{
	Exception e = { .prev = NULL, .triggered = false, .defer_stack = NULL };
	demo_coro.exception_mgr.last = &e;
	if (setjmp(e.buf) == 0) { fn(arg); return false; }
	return true;
}
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
