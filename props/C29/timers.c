//@proof order kind=proof unwind=2 covers=timer_mgr_cmp
//@proof add kind=bounded unwind=7 bound=up_to_3_other_timers covers=timer_mgr_add,timer_start,timer_init
//@proof remove kind=bounded unwind=7 bound=up_to_5_timers covers=timer_mgr_remove,timer_stop
//@proof step kind=bounded unwind=7 bound=up_to_5_timers covers=timer_mgr_step,timer_mgr_timer_min,timer_mgr_has_timers
//@proof grow kind=native fuzz=20000 bound=up_to_200_timers covers=timer_mgr_add,timer_mgr_remove,timer_mgr_step
//@flags -DVF_WORD_MEMMOVE=6
//@assume qsort sorts by the comparison function it is given (contract "order" shows it to be an order)
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifdef VF_CBMC
/* contract of qsort on an array of pointers: a permutation, in the order of the
 * comparison function (libc, trusted).  The array was sorted up to the last. */
static int vf_sorted;
static void vf_qsort(void* base, size_t n, size_t size, int (*cmp)(const void*, const void*))
{
	Timer** a = base;
	__CPROVER_assert(size == sizeof(Timer*) && n <= 6, "VF-CAPACITY: qsort model");
	/* all but the last are in order: put the last in its place */
	for (size_t i = 1; i < 6; i++)
		if (i + 1 < n)
			__CPROVER_assert(cmp(&a[i - 1], &a[i]) < 0, "VF-CAPACITY: qsort model");
	for (size_t j = 5; j > 0; j--)
		if (j < n && cmp(&a[j - 1], &a[j]) > 0)
		{
			Timer* t = a[j - 1];
			a[j - 1] = a[j];
			a[j] = t;
		}
	vf_sorted++;
}
#define qsort vf_qsort
#endif
static uint64_t clock_ns;
static int vf_clock_gettime(int id, struct timespec* t)
{
	(void)id;
	t->tv_sec  = clock_ns / 1000000000;
	t->tv_nsec = clock_ns % 1000000000;
	return 0;
}
#define clock_gettime vf_clock_gettime
#include "base/timer_mgr.c"
#undef clock_gettime

#define MAX 5
static Timer    timers[MAX + 1];
static Timer*   array[32];
static TimerMgr mgr;
static int      fired[MAX + 1], fired_at[MAX + 1], fired_count;
static void fire(Timer* t)
{
	int i = (int)(t - timers);
	VF_ENSURES(t == &timers[i] && i >= 0 && i <= MAX, "timer: its own function is called");
	VF_ENSURES(t->function_arg == &fired[i], "timer: its own argument is passed");
	fired[i]++;
	fired_at[i] = fired_count++;
}

/* a comes before b */
static bool before(Timer* a, Timer* b)
{
	return a->timeout < b->timeout || (a->timeout == b->timeout && a->seq < b->seq);
}
/* any state of the timers: sorted, numbered in the order they were started */
static int any_timers(int max)
{
	int n = vf_range(0, max);
	mgr.timers       = array;
	mgr.timers_max   = 32;
	mgr.timers_count = n;
	mgr.timers_seq   = vf_range(0, UINT64_MAX / 2);
	mgr.time_cached  = false;
	mgr.time_ms      = vf_range(0, UINT64_MAX / 4);
	fired_count = 0;
	for (int i = 0; i <= MAX; i++)
	{
		timer_init(&timers[i], fire, &fired[i], vf_range(0, INT32_MAX));
		fired[i] = 0;
		VF_ENSURES(! timers[i].active, "timer: not started by timer_init");
	}
	for (int i = 0; i < MAX; i++)
		if (i < n)
		{
			timers[i].timeout = vf_range(0, UINT64_MAX / 2);
			timers[i].seq     = vf_range(0, UINT64_MAX / 2);
			timers[i].active  = true;
			timers[i].mgr     = &mgr;
			VF_REQUIRES(timers[i].seq < mgr.timers_seq);
			VF_REQUIRES(i == 0 || before(&timers[i - 1], &timers[i]));
			/* no two timers have one number */
			for (int j = 0; j < MAX; j++)
				if (j < i)
					VF_REQUIRES(timers[j].seq != timers[i].seq);
			array[i] = &timers[i];
		}
	return n;
}

/* contract timer_mgr_cmp: the order of timers, time first, then the order they
 * were started in; a strict total order */
VF_PROOF(order)
{
	vf_init();
	for (int i = 0; i < 1; i++)
	{
		timers[0].timeout = vf_u64(); timers[0].seq = vf_u64();
		timers[1].timeout = vf_u64(); timers[1].seq = vf_u64();
	}
	VF_REQUIRES(timers[0].seq != timers[1].seq);
	Timer *a = &timers[0], *b = &timers[1];
	int ab = timer_mgr_cmp(&a, &b), ba = timer_mgr_cmp(&b, &a);
	VF_REACH("order");
	VF_ENSURES((ab < 0) == before(a, b) && (ab > 0) == before(b, a) && ab != 0, "timer_mgr_cmp: by time, then in the order started");
	VF_ENSURES((ba < 0) == (ab > 0), "timer_mgr_cmp: is an order");
}

/* contract timer_start: the timer is put in its place, at its time; the others
 * are as they were */
VF_PROOF(add)
{
	vf_init();
	int n = any_timers(MAX - 2);
	/* the time is known (that it is asked for is part of "grow") */
	uint64_t seq = mgr.timers_seq;
	mgr.time_cached = true;
	uint64_t now = mgr.time_ms;
	Timer* t = &timers[MAX];
	timer_start(&mgr, t);
	VF_REACH("add");
	VF_ENSURES(mgr.timers_count == n + 1, "timer_start: one more timer");
	VF_ENSURES(t->active && t->mgr == &mgr && t->timeout == now + t->interval, "timer_start: fires after its interval");
	VF_ENSURES(t->function == fire && t->function_arg == &fired[MAX], "timer_start: keeps the function");
	VF_ENSURES(mgr.timers_seq > seq, "timer_start: numbered in the order started");
	bool found = false;
	for (int i = 0; i < MAX; i++)
		if (i <= n)
		{
			int back = found ? 1 : 0;
			if (mgr.timers[i] == t)
			{
				VF_ENSURES(! found, "timer_start: once");
				found = true;
			} else
				VF_ENSURES(mgr.timers[i] == &timers[i - back], "timer_start: the others keep their order");
			if (i > 0)
				VF_ENSURES(before(mgr.timers[i - 1], mgr.timers[i]), "timer_start: earlier timers first, equal ones in the order started");
		}
	VF_ENSURES(found, "timer_start: the timer is there");
	VF_ENSURES(timer_mgr_timer_min(&mgr) == mgr.timers[0] && timer_mgr_has_timers(&mgr), "timer_start: the first timer is the next one");
}

/* contract timer_stop: removes that timer, and no other */
VF_PROOF(remove)
{
	vf_init();
	int n = any_timers(MAX);
	int k = vf_range(0, MAX);
	bool there = k < n;
	if (! there)
		k = MAX;
	timer_stop(&timers[k]);
	VF_REACH("remove");
	VF_ENSURES(mgr.timers_count == n - there, "timer_stop: the timer is removed");
	VF_ENSURES(! timers[k].active, "timer_stop: the timer is not active");
	for (int i = 0; i < MAX; i++)
		if (i < n - there)
			VF_ENSURES(mgr.timers[i] == &timers[i < k ? i : i + 1] && mgr.timers[i]->active, "timer_stop: no other timer is touched");
	VF_ENSURES(fired_count == 0, "timer_stop: fires none");
}

/* contract timer_mgr_step: fires exactly the timers whose time has come, once
 * each and in order, and keeps the others */
VF_PROOF(step)
{
	vf_init();
	int n = any_timers(MAX);
	uint64_t timeout[MAX];
	for (int i = 0; i < MAX; i++)
		timeout[i] = timers[i].timeout;
	int hits = timer_mgr_step(&mgr);
	VF_REACH("step");
	int due = 0;
	for (int i = 0; i < MAX; i++)
		if (i < n && timeout[i] <= mgr.time_ms)
			due++;
	VF_ENSURES(hits == due && fired_count == due, "timer_mgr_step: fires exactly the timers whose time has come");
	VF_ENSURES(mgr.timers_count == n - due, "timer_mgr_step: a fired timer is removed");
	for (int i = 0; i < MAX; i++)
		if (i < n)
		{
			if (i < due)
				VF_ENSURES(fired[i] == 1 && fired_at[i] == i && ! timers[i].active, "timer_mgr_step: once each, earlier ones first");
			else
				VF_ENSURES(fired[i] == 0 && timers[i].active && mgr.timers[i - due] == &timers[i], "timer_mgr_step: the others are kept");
		}
}

/* the same for many timers, on the real memory and qsort */
#define MANY 200
static Timer* any[MANY];
static int    any_count;
static void fire_any(Timer* t)
{
	VF_ENSURES(any_count < MANY, "timer_mgr_step: once each");
	any[any_count++] = t;
}
VF_PROOF(grow)
{
	vf_init();
#ifndef VF_CBMC
	static Timer many[MANY];
	uint64_t start_seq[MANY];
	timer_mgr_init(&mgr);
	clock_ns = vf_range(0, UINT32_MAX) * 1000000;
	fired_count = 0;
	uint64_t seq = 0;
	int live = 0;
	for (int i = 0; i < MANY; i++)
		many[i].active = false;
	VF_REACH("grow");
	for (int step = vf_range(1, 400); step > 0; step--)
	{
		int i = vf_range(0, MANY - 1);
		switch (vf_range(0, 5)) {
		case 0: case 1: case 2:
			if (many[i].active)
				break;
			timer_init(&many[i], NULL, NULL, vf_range(0, 50));
			start_seq[i] = seq++;
			timer_mgr_reset(&mgr);
			timer_start(&mgr, &many[i]);
			VF_ENSURES(many[i].timeout == clock_ns / 1000000 + many[i].interval, "timer_start: fires after its interval");
			live++;
			break;
		case 3:
			if (many[i].active)
				live--;
			timer_stop(&many[i]);
			break;
		case 4:
			clock_ns += vf_range(0, 30) * 1000000;
			break;
		case 5:
		{
			/* fires in order: checked against the array before */
			timer_mgr_reset(&mgr);
			timer_mgr_update(&mgr);
			int due = 0;
			for (int j = 0; j < mgr.timers_count; j++)
			{
				mgr.timers[j]->function = fire_any;
				if (mgr.timers[j]->timeout <= clock_ns / 1000000)
					due++;
			}
			any_count = 0;
			int hits = timer_mgr_step(&mgr);
			VF_ENSURES(hits == due && any_count == due, "timer_mgr_step: fires exactly the timers whose time has come");
			for (int j = 0; j < due; j++)
			{
				VF_ENSURES(! any[j]->active, "timer_mgr_step: a fired timer is removed");
				if (j > 0)
				{
					Timer *a = any[j - 1], *b = any[j];
					VF_ENSURES(a->timeout < b->timeout || (a->timeout == b->timeout && start_seq[a - many] < start_seq[b - many]), "timer_mgr_step: earlier ones first, equal ones in the order started");
				}
			}
			live -= due;
			break;
		}
		}
		VF_ENSURES(mgr.timers_count == live, "timers: exactly those started and not stopped or fired");
		for (int j = 0; j < mgr.timers_count; j++)
			VF_ENSURES(mgr.timers[j]->active && (j == 0 || before(mgr.timers[j - 1], mgr.timers[j])), "timers: in order");
	}
	timer_mgr_free(&mgr);
#endif
}
