//@proof history kind=native fuzz=300000 ttimeout=300 bound=up_to_6_coroutines_of_up_to_10_steps_over_4_events covers=task_execute,task_init,task_free,task_coroutine_main,mainloop,task_shutdown,bus_step,bus_send,event_signal,event_signal_local,event_wait,wait_event,wait_event_time,coroutine_create,coroutine_wait,coroutine_kill,coroutine_kill_nowait,coroutine_sleep,coroutine_yield,coroutine_cancel,coroutine_resume,coroutine_suspend,coroutine_mgr_create,coroutine_mgr_scheduler,cancel_pause,cancel_resume,mailbox_pop,mailbox_append,task_recv,task_send,rpc_send,rpc_recv,rpc_set_wait,rpc_execute,exception_mgr_throw,defer_runner,timer_mgr_step,timer_mgr_add,timer_mgr_remove,context_swap
//@proof threads kind=native fuzz=40 timeout=150 bound=4_threads_of_up_to_3000_requests covers=bus_send,bus_step,notify_signal,task_send,task_recv,rpc,rpc_set_wait,cond_signal,cond_wait,mainloop,poller_step,task_create_nothrow,task_wait
//@nflags -fno-sanitize=address -fsanitize-trap=undefined
#include <vf.h>
#include <amelie_runtime>
#define VF_REAL_REPORT
#include <vf_env.h>
#include "base/report.c"
#include "base/context.c"
#include "base/context_stack.c"

/* contract of the scheduler, on the real one, with a virtual clock: whenever a
 * task goes to sleep, everyone who has a reason to run has run; and nobody
 * returns from waiting without a reason. */
static uint64_t now_ms;
static bool     virtual;
static int vf_clock_gettime(int id, struct timespec* t)
{
	if (! virtual)
		return clock_gettime(id, t);
	t->tv_sec  = now_ms / 1000;
	t->tv_nsec = (now_ms % 1000) * 1000000;
	return 0;
}
static void idle(int timeout);
static int vf_epoll_wait(int fd, struct epoll_event* list, int max, int timeout)
{
	if (! virtual)
		return epoll_wait(fd, list, max, timeout);
	int n = epoll_wait(fd, list, max, 0);
	if (n == 0 && timeout != 0)
		idle(timeout);
	return n;
}
#define clock_gettime vf_clock_gettime
#include "base/timer_mgr.c"
#undef clock_gettime
#define epoll_wait vf_epoll_wait
#include "base/poller.c"
#undef epoll_wait
#include "base/notify.c"
#include "base/task.c"

#define SLOTS  6
#define EVENTS 4
#define MSGS   64

typedef enum { RUN, EVENT_WAIT, SLEEP, JOIN, KILL, RECV, CALL } Doing;

typedef struct
{
	bool     used, ended, started;
	bool     cancelled;        /* cancellation asked for */
	int      paused;
	uint64_t id;
	Doing    doing;
	int      event;            /* EVENT_WAIT */
	uint64_t since;            /* signals of the event when the wait started */
	int64_t  deadline;         /* -1: none */
	int      target;           /* JOIN, KILL */
	bool     waited;           /* somebody waits for the end */
	int      defers, ran;      /* deferred cleanups */
} Slot;

static Slot     slots[SLOTS];
static Event    events[EVENTS];
static int      waiter[EVENTS];
static uint64_t sent[EVENTS], before[EVENTS][2];
static bool     pending[EVENTS], attached[EVENTS];
static Runtime  rt;
static Task     task;
static Msg      msgs[MSGS];
static int      msgs_sent, msgs_got, spawned, calls_open;
static bool     receiver_ended;

static void idle(int timeout)
{
	for (int i = 0; i < SLOTS; i++)
	{
		Slot* s = &slots[i];
		if (!s->used || s->ended)
			continue;
		VF_ENSURES(s->doing != RUN, "scheduler: a coroutine which is ready runs before the task sleeps");
		VF_ENSURES(! (s->cancelled && !s->paused && (s->doing == EVENT_WAIT || s->doing == SLEEP)), "cancel: a waiting coroutine is woken by a cancel");
		if (s->doing == EVENT_WAIT)
			VF_ENSURES(sent[s->event] == s->since, "event: a signal wakes the one who waits for it");
		if (s->doing == EVENT_WAIT || s->doing == SLEEP)
		{
			VF_ENSURES(s->deadline < 0 || s->deadline > (int64_t)now_ms, "wait: ends at the time given");
			VF_ENSURES(s->deadline < 0 || (timeout >= 0 && (int64_t)now_ms + timeout <= s->deadline), "task: sleeps no longer than until the first deadline");
		}
		if (s->doing == JOIN || s->doing == KILL)
			VF_ENSURES(! slots[s->target].ended, "coroutine: its end wakes the one who waits for it");
	}
	VF_ENSURES(receiver_ended || msgs_got == msgs_sent, "mailbox: a message wakes the receiver");
	VF_ENSURES(timeout >= 0, "task: sleeps no longer than until the first deadline");
	/* sleeping takes at least as long as asked for */
	now_ms += timeout + (vf_range(0, 3) ? 0 : vf_range(0, 20));
}

static void work(Slot*, int);

/* waiting for an event, and why it ended */
static void wait_on(Slot* s, int e, int t)
{
	bool early = pending[e];
	s->event    = e;
	s->since    = sent[e];
	s->deadline = t >= 0 ? (int64_t)now_ms + t : -1;
	bool cancel = s->cancelled && !s->paused;
	/* a signal sent before the last wait started may be on its way still, no older one */
	uint64_t from = before[e][0], last = before[e][1];
	before[e][0] = last;
	before[e][1] = sent[e];
	waiter[e] = 1;
	/* a signal sent before counts, the wait may end at once */
	if (early)
		s->since--;
	s->doing = early || cancel ? RUN : EVENT_WAIT;
	bool timedout = false;
	int  slot = s - slots;
	bool bad = error_catch( timedout = event_wait(&events[e], t) );
	VF_ENSURES(am_self()->id == slots[slot].id && s == &slots[slot], "scheduler: a coroutine goes on where it was");
	s->doing = RUN;
	waiter[e] = 0;
	bool late = s->deadline >= 0 && (int64_t)now_ms >= s->deadline;
	if (bad)
	{
		VF_ENSURES(s->cancelled && !s->paused, "wait: fails only when cancelled");
		before[e][0] = from;
		before[e][1] = last;
		pending[e] = attached[e] ? false : events[e].signal;
		rethrow();
	}
	VF_ENSURES(! (s->cancelled && !s->paused && cancel), "cancel: a cancelled coroutine does not wait");
	if (timedout)
		VF_ENSURES(late && !early, "wait: times out at the time given and not before");
	else if (attached[e])
		VF_ENSURES(sent[e] > from || (t == 0 && late), "event: nobody is woken without a signal");
	else
		VF_ENSURES(early || sent[e] > s->since || (t == 0 && late), "event: nobody is woken without a signal");
	if (early && !attached[e])
		VF_ENSURES(! timedout, "event: a signal sent before the wait ends it at once");
	pending[e] = false;
}

/* errors and the deferred cleanups, counted and in the reverse order */
static int order[64], order_count;
static void cleanup(void* arg)  { VF_REQUIRES(order_count < 64); order[order_count++] = (int)(intptr_t)arg; }
static void cleanup_nested(void* arg)
{
	/* a cleanup which handles an error of its own */
	bool bad = error_catch( error("inner") );
	VF_ENSURES(bad, "error: is caught by the nearest catch");
	cleanup(arg);
}
static int expect[64], expect_count;
static bool unwind(int depth, bool throws)
{
	/* returns true if the cleanups of this level are to run before those of its caller */
	int id = depth * 8;
	defer(cleanup, (void*)(intptr_t)(id + 1));
	errdefer(cleanup, (void*)(intptr_t)(id + 2));
	defer(cleanup_nested, (void*)(intptr_t)(id + 3));
	if (depth < 4 && vf_bool())
	{
		if (vf_bool())
		{
			/* an error which stays inside */
			bool inside = vf_bool();
			bool bad = error_catch( unwind(depth + 1, inside) );
			VF_ENSURES(bad == inside, "error: caught exactly if one was raised");
		} else {
			unwind(depth + 1, throws);
			VF_ENSURES(! throws, "error: does not return to where it was raised");
		}
	}
	VF_REQUIRES(expect_count < 60);
	expect[expect_count++] = id + 3;
	if (throws)
		expect[expect_count++] = id + 2;
	expect[expect_count++] = id + 1;
	if (throws)
		error("level %d", depth);
	return true;
}
/* the order is the one of the levels, innermost first: rebuilt by a second run of the same choices */
static void errors(void)
{
	order_count = expect_count = 0;
	bool throws = vf_bool();
	bool bad = error_catch( unwind(0, throws) );
	VF_ENSURES(bad == throws, "error: caught exactly if one was raised");
	if (bad)
		VF_ENSURES(am_self()->error.code == ERROR, "error: tells what was raised");
	/* a level that raised through its callers has only been noted where it started */
	int at = 0;
	for (int i = 0; i < order_count; i++)
	{
		for (int j = 0; j < i; j++)
			VF_ENSURES(order[j] != order[i] || order[i] >= 8, "defer: every cleanup runs once");
		if (at < expect_count && order[i] == expect[at])
			at++;
	}
	VF_ENSURES(at == expect_count, "defer: every cleanup runs, latest first");
	int first = 0, second = 0, third = 0;
	for (int i = 0; i < order_count; i++)
	{
		first  += order[i] == 1;
		second += order[i] == 2;
		third  += order[i] == 3;
		if (order[i] == 1)
			VF_ENSURES(i == order_count - 1 && third == 1 && second == (int)throws, "defer: latest first, those for errors only after one");
	}
	VF_ENSURES(first == 1 && third == 1 && second == (int)throws, "defer: every cleanup runs once");
}

static void body(void* arg)
{
	int me = (int)(intptr_t)arg;
	Slot* s = &slots[me];
	VF_ENSURES(am_self()->id == s->id, "scheduler: a coroutine gets its own arguments");
	VF_ENSURES(list_empty(&am_self()->link_ready) && am_self()->cancel_pause == 0, "scheduler: a new coroutine starts fresh");
	s->started = true;
	volatile int left = vf_range(0, 10);
	bool bad = error_catch(
		while (left-- > 0)
			work(s, me);
	);
	VF_ENSURES(!bad || s->cancelled, "coroutine: is ended by an error only if cancelled");
	VF_ENSURES(s->paused == 0 || bad, "coroutine: pauses are paired");
	s->ended  = true;
}
static void start(void)
{
	int i = 0;
	for (; i < SLOTS; i++)
		if (!slots[i].used || (slots[i].ended && !slots[i].waited))
			break;
	if (i == SLOTS || spawned >= 20)
		return;
	spawned++;
	memset(&slots[i], 0, sizeof(Slot));
	slots[i].used = true;
	/* the id is known before it runs */
	slots[i].id = am_task->coroutine_mgr.seq;
	uint64_t id = coroutine_create(body, (void*)(intptr_t)i);
	VF_ENSURES(id == slots[i].id, "coroutine: ids are not used again");
}
static int other(int me)
{
	int at = vf_range(0, SLOTS - 1);
	for (int i = 0; i < SLOTS; i++, at = (at + 1) % SLOTS)
	{
		Slot* t = &slots[at];
		if (at != me && t->used && !t->ended && !t->waited)
		{
			/* no circle of waiting */
			int  k = at;
			bool ok = true;
			for (int d = 0; d < SLOTS && (slots[k].doing == JOIN || slots[k].doing == KILL); d++)
			{
				k = slots[k].target;
				if (k == me)
					ok = false;
			}
			if (ok)
				return at;
		}
	}
	return -1;
}
static void cancel_of(int at)
{
	slots[at].cancelled = true;
	/* one that has not been started yet never is */
	if (! slots[at].started)
		slots[at].ended = true;
}
static void done_rpc(Rpc* rpc, void* arg)
{
	(void)rpc;
	if (*(int*)arg == 1)
		error("refused");
}
/* requests executed by someone else: none is still being executed afterwards */
static Rpc* rpc_pending[16];
static int  rpc_pending_count;
static void server(void* arg)
{
	(void)arg;
	for (;;)
	{
		coroutine_sleep(vf_range(0, 5));
		if (rpc_pending_count)
		{
			int at = vf_range(0, rpc_pending_count - 1);
			auto rpc = rpc_pending[at];
			rpc_pending[at] = rpc_pending[--rpc_pending_count];
			rpc_execute(rpc, done_rpc, rpc->arg);
		}
	}
}
static void call(Slot* s)
{
	int count = vf_range(1, 3), what[3], refused = 0;
	if (rpc_pending_count + count > 16)
		return;
	RpcSet set;
	rpc_set_init(&set);
	rpc_set_prepare(&set, count);
	for (int i = 0; i < count; i++)
	{
		what[i] = vf_range(0, 3);
		refused += what[i] == 1;
		auto rpc = rpc_set_add(&set, i, MSG_REQ, &what[i]);
		event_attach(&rpc->on_complete);
		rpc_pending[rpc_pending_count++] = rpc;
	}
	s->doing = CALL;
	bool bad = error_catch( rpc_set_wait(&set) );
	s->doing = RUN;
	for (int i = 0; i < rpc_pending_count; i++)
		for (int j = 0; j < count; j++)
			VF_ENSURES(rpc_pending[i] != rpc_set_at(&set, j), "rpc: no request is abandoned while it is executed");
	if (bad)
		VF_ENSURES(refused || s->cancelled, "rpc: fails exactly if a request failed");
	else
		VF_ENSURES(! refused, "rpc: fails exactly if a request failed");
	rpc_set_free(&set);
	if (bad && am_self()->cancel)
		rethrow();
}
static void work(Slot* s, int me)
{
	switch (vf_range(0, 12)) {
	case 0: case 1: case 2:
	{
		int e = vf_range(0, EVENTS - 1);
		if (! waiter[e])
			wait_on(s, e, vf_range(0, 4) ? vf_range(0, 30) : -1);
		break;
	}
	case 3: case 4:
	{
		int e = vf_range(0, EVENTS - 1);
		sent[e]++;
		if (! attached[e])
			pending[e] = !waiter[e] ? true : pending[e];
		event_signal(&events[e]);
		break;
	}
	case 5:
	{
		uint64_t from = now_ms;
		int t = vf_range(0, 40);
		bool cancel = s->cancelled && !s->paused;
		s->doing    = cancel ? RUN : SLEEP;
		s->deadline = now_ms + t;
		bool bad = error_catch( coroutine_sleep(t) );
		s->doing = RUN;
		if (bad)
		{
			VF_ENSURES(s->cancelled && !s->paused, "sleep: fails only when cancelled");
			rethrow();
		}
		VF_ENSURES(! cancel, "cancel: a cancelled coroutine does not sleep");
		VF_ENSURES(now_ms >= from + t, "sleep: not shorter than asked for");
		break;
	}
	case 6:
		start();
		break;
	case 7: case 8:
	{
		int at = other(me);
		if (at < 0)
			break;
		bool kill = vf_bool();
		if (kill)
			cancel_of(at);
		slots[at].waited = true;
		s->target = at;
		s->doing  = kill ? KILL : JOIN;
		bool paused = s->paused;
		bool bad;
		if (kill)
			bad = error_catch( coroutine_kill(slots[at].id) );
		else
			bad = error_catch( coroutine_wait(slots[at].id) );
		s->doing = RUN;
		VF_ENSURES(slots[at].ended, "coroutine: waiting for it ends when it has ended");
		VF_ENSURES(! coroutine_mgr_find(&am_task->coroutine_mgr, slots[at].id), "coroutine: waiting for it ends when it has ended");
		slots[at].waited = false;
		if (bad)
		{
			VF_ENSURES(s->cancelled && !paused, "coroutine: waiting for another fails only when cancelled");
			rethrow();
		}
		break;
	}
	case 9:
	{
		int at = other(me);
		if (at < 0 || vf_range(0, 2))
			break;
		cancel_of(at);
		coroutine_kill_nowait(slots[at].id);
		break;
	}
	case 10:
		errors();
		break;
	case 11:
	{
		if (s->paused)
		{
			call(s);
			break;
		}
		if (vf_bool())
		{
			call(s);
			break;
		}
		if (s->cancelled)
			break;
		cancel_pause();
		s->paused++;
		bool bad = error_catch(
			work(s, me);
			work(s, me);
		);
		VF_ENSURES(! bad, "cancel: nothing fails while cancelling is paused");
		s->paused--;
		bool cancel = s->cancelled;
		bad = error_catch( cancel_resume() );
		VF_ENSURES(bad == cancel, "cancel: one that came while paused takes effect at the end of the pause");
		if (bad)
			rethrow();
		break;
	}
	case 12:
		if (msgs_sent < MSGS && !receiver_ended)
		{
			msg_init(&msgs[msgs_sent], MSG_REQ);
			task_send(am_task, &msgs[msgs_sent++]);
		}
		break;
	}
}
static void receiver(void* arg)
{
	(void)arg;
	for (;;)
	{
		auto msg = vf_range(0, 3) ? task_recv() : task_recv_try();
		if (! msg)
		{
			coroutine_yield();
			continue;
		}
		if (msg->id == MSG_STOP)
			break;
		VF_ENSURES(msgs_got < msgs_sent && msg == &msgs[msgs_got], "mailbox: messages are received once, in the order they were sent");
		msgs_got++;
		if (! vf_range(0, 2))
			coroutine_yield();
	}
	receiver_ended = true;
}
static void driver(void* arg)
{
	(void)arg;
	auto server_id = coroutine_create(server, NULL);
	coroutine_create(receiver, NULL);
	for (int i = vf_range(1, 4); i > 0; i--)
		start();
	for (int i = 0; ; i++)
	{
		coroutine_sleep(vf_range(0, 10));
		bool all = true;
		for (int j = 0; j < SLOTS; j++)
			if (slots[j].used && !slots[j].ended)
			{
				all = false;
				/* signal or cancel those which would wait forever */
				if (i > 30 && slots[j].doing == EVENT_WAIT)
				{
					int e = slots[j].event;
					sent[e]++;
					event_signal(&events[e]);
				}
			}
		if (all)
			break;
		VF_ENSURES(i < 400, "scheduler: everyone goes on");
	}
	VF_ENSURES(msgs_got <= msgs_sent, "mailbox: messages are received once, in the order they were sent");
	Msg stop;
	msg_init(&stop, MSG_STOP);
	task_send(am_task, &stop);
	while (! receiver_ended)
		coroutine_yield();
	VF_ENSURES(msgs_got == msgs_sent, "mailbox: no message is lost");
	if (vf_bool())
		coroutine_kill(server_id);
	/* otherwise the end of the main coroutine ends it */
}
VF_PROOF(history)
{
	vf_init();
	virtual = true;
	now_ms  = vf_range(1, 1000000);
	memset(slots, 0, sizeof(slots));
	memset(waiter, 0, sizeof(waiter));
	memset(sent, 0, sizeof(sent));
	memset(before, 0, sizeof(before));
	memset(pending, 0, sizeof(pending));
	msgs_sent = msgs_got = spawned = rpc_pending_count = 0;
	receiver_ended = false;
	task_init(&task);
	int rc = task_create_nothrow(&task, "test", NULL, NULL, &rt, NULL, NULL, NULL, &vf_buf_mgr);
	VF_REQUIRES(rc == 0);
	for (int i = 0; i < EVENTS; i++)
	{
		event_init(&events[i]);
		attached[i] = vf_bool();
		if (attached[i])
			event_set_bus(&events[i], &task.bus);
	}
	VF_REACH("history");
	Task* task_prev = am_task;
	void* runtime_prev = am_runtime;
	task_execute(&task, driver, NULL);
	VF_ENSURES(am_task == task_prev && am_runtime == runtime_prev, "task: the context of its caller comes back");
	VF_ENSURES(task.coroutine_mgr.count == 0, "task: ends after all of its coroutines");
	VF_ENSURES(task.timer_mgr.timers_count == 0, "timers: none is left behind");
	task_free(&task);
	virtual = false;
}

/* contract across threads: every request sent to another task is executed once,
 * in the order sent, and its sender is woken when it is done; nobody sleeps
 * through a message. */
#define WORKERS 3
typedef struct { uint64_t seq; int worker; bool refuse; int executed; } Req;
static Task     workers[WORKERS];
static uint64_t last_seq[WORKERS];
static uint64_t next_seq[WORKERS];
static Msg      notes[WORKERS][4096];
static int      notes_sent[WORKERS], notes_got[WORKERS];
static int      clients_left, requests, failed_order;
static void execute(Rpc* rpc, void* arg)
{
	(void)arg;
	Req* req = rpc->arg;
	req->executed++;
	if (req->seq <= last_seq[req->worker])
		failed_order++;
	last_seq[req->worker] = req->seq;
	if (req->refuse)
		error("refused");
}
static void worker_main(void* arg)
{
	int me = (int)(intptr_t)arg;
	cond_signal(&am_task->status, 7 + me);
	for (;;)
	{
		auto msg = task_recv();
		if (msg->id == MSG_STOP)
			break;
		if (msg->id == MSG_REQ)
			rpc_execute(rpc_of(msg), execute, NULL);
		else
		{
			if (msg != &notes[me][notes_got[me]])
				failed_order++;
			notes_got[me]++;
		}
	}
}
static void client_main(void* arg)
{
	int n = (int)(intptr_t)arg;
	uint64_t mix = n * 2654435761u + 1;
	for (int i = 0; i < n; i++)
	{
		mix = mix * 6364136223846793005ull + 1442695040888963407ull;
		int what = mix >> 60, w = (mix >> 33) % WORKERS;
		if (what < 3 && notes_sent[w] < 4096)
		{
			auto note = &notes[w][notes_sent[w]++];
			msg_init(note, MSG_CLIENT);
			task_send(&workers[w], note);
		}
		if (what & 1)
		{
			Req req = { .seq = ++next_seq[w], .worker = w, .refuse = what == 5, .executed = 0 };
			bool bad = error_catch( rpc(&workers[w], MSG_REQ, &req) );
			VF_ENSURES(req.executed == 1, "rpc: is executed once");
			VF_ENSURES(bad == req.refuse, "rpc: fails exactly if the request failed");
			if (bad)
				VF_ENSURES(am_self()->error.code == ERROR && strcmp(buf_cstr(&am_self()->error.text), "refused") == 0, "rpc: the error is the one of the request");
		} else
		{
			Req req[WORKERS];
			RpcSet set;
			rpc_set_init(&set);
			rpc_set_prepare(&set, WORKERS);
			bool refuse = false;
			for (int j = 0; j < WORKERS; j++)
			{
				req[j] = (Req){ .seq = ++next_seq[j], .worker = j, .refuse = what == 4 && j == w, .executed = 0 };
				refuse |= req[j].refuse;
				rpc_send(rpc_set_add(&set, j, MSG_REQ, &req[j]), &workers[j]);
			}
			bool bad = error_catch( rpc_set_wait(&set) );
			for (int j = 0; j < WORKERS; j++)
				VF_ENSURES(req[j].executed == 1, "rpc: every request is executed once");
			VF_ENSURES(bad == refuse, "rpc: fails exactly if a request failed");
			rpc_set_free(&set);
		}
		requests++;
	}
	clients_left--;
}
static void clients(void* arg)
{
	int n = (int)(intptr_t)arg;
	uint64_t ids[4];
	clients_left = 1 + n % 4;
	int count = clients_left;
	for (int i = 0; i < count; i++)
		ids[i] = coroutine_create(client_main, (void*)(intptr_t)(n / count));
	for (int i = 0; i < count; i++)
		coroutine_wait(ids[i]);
	VF_ENSURES(clients_left == 0, "coroutine: waiting for it ends when it has ended");
}
static void overdue(int sig)
{
	(void)sig;
	vf_ensure_failed("tasks: nobody sleeps through a message", __FILE__, __LINE__);
}
static BufMgr thread_bufs[WORKERS];
VF_PROOF(threads)
{
	vf_init();
	int n = vf_range(1, 3000);
	virtual = false;
	memset(last_seq, 0, sizeof(last_seq));
	memset(next_seq, 0, sizeof(next_seq));
	memset(notes_sent, 0, sizeof(notes_sent));
	memset(notes_got, 0, sizeof(notes_got));
	failed_order = requests = 0;
	task_init(&task);
	int rc = task_create_nothrow(&task, "test", NULL, NULL, &rt, NULL, NULL, NULL, &vf_buf_mgr);
	VF_REQUIRES(rc == 0);
	signal(SIGALRM, overdue);
	alarm(60);
	for (int i = 0; i < WORKERS; i++)
	{
		task_init(&workers[i]);
		buf_mgr_init(&thread_bufs[i]);
		rc = task_create_nothrow(&workers[i], "worker", worker_main, (void*)(intptr_t)i, &rt, NULL, NULL, NULL, &thread_bufs[i]);
		VF_REQUIRES(rc == 0);
		VF_ENSURES(cond_wait(&workers[i].status) == 7 + i, "cond: waits for the signal and its value");
	}
	VF_REACH("threads");
	task_execute(&task, clients, (void*)(intptr_t)n);
	Msg stop[WORKERS];
	for (int i = 0; i < WORKERS; i++)
	{
		msg_init(&stop[i], MSG_STOP);
		task_send(&workers[i], &stop[i]);
		task_wait(&workers[i]);
		VF_ENSURES(notes_got[i] == notes_sent[i], "tasks: every message is received once");
		VF_ENSURES(last_seq[i] == next_seq[i], "tasks: every request is executed");
		task_free(&workers[i]);
		buf_mgr_free(&thread_bufs[i]);
	}
	alarm(0);
	VF_ENSURES(failed_order == 0, "tasks: messages are received in the order they were sent");
	task_free(&task);
}
