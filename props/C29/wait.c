//@proof signal kind=bounded unwind=4 bound=events_with_up_to_1_parent covers=event_signal,event_signal_local,event_set_parent,coroutine_resume
//@proof resume kind=proof unwind=3 covers=coroutine_resume,coroutine_mgr_add_ready
//@proof cancel kind=proof unwind=3 covers=coroutine_cancel,coroutine_cancel_pause,coroutine_cancel_resume,coroutine_cancelled,cancel_pause,cancel_resume,cancellation_point
//@proof wait kind=proof unwind=3 covers=wait_event,coroutine_suspend,coroutine_mgr_switch
//@proof time kind=proof unwind=4 covers=wait_event_time,wait_event_timer,event_wait,coroutine_sleep,coroutine_yield
//@proof send kind=proof unwind=5 covers=bus_send,ipc_ref,msg_init,task_send
//@proof deliver kind=native fuzz=30000 bound=up_to_3_queued_events_and_messages covers=bus_step,ipc_unref,mailbox_append,mailbox_pop_nowait,bus_pending
//@flags -DVF_WORD_MEMMOVE=4
//@assume a coroutine that is switched to runs the contracts of this unit
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifdef VF_CBMC
static void vf_qsort(void* base, size_t n, size_t size, int (*cmp)(const void*, const void*))
{
	(void)base; (void)cmp; (void)size;
	__CPROVER_assert(n <= 1, "VF-CAPACITY: qsort model");
}
#define qsort vf_qsort
#endif
#define clock_gettime vf_clock_gettime
static int vf_clock_gettime(int id, struct timespec* t)
{
	(void)id;
	t->tv_sec = 1; t->tv_nsec = 0;
	return 0;
}
#include "base/timer_mgr.c"
#undef clock_gettime

void context_stack_init(ContextStack* self) { memset(self, 0, sizeof(*self)); }
static int notified;
void notify_signal(Notify* self) { (void)self; notified++; }

/* the others run: what happens while a coroutine is suspended */
static void (*others)(void);
static int suspended;
void context_swap(Context* from, Context* to)
{
	auto mgr = &am_task->coroutine_mgr;
	VF_ENSURES(to == &mgr->main.context && mgr->current == &mgr->main, "coroutine_suspend: goes to the main loop");
	VF_ENSURES(from == &vf_coro.context, "coroutine_suspend: saves the one that runs");
	suspended++;
	if (others)
		others();
	/* the main loop takes it up again */
	VF_REQUIRES(! list_empty(&vf_coro.link_ready));
	list_unlink(&vf_coro.link_ready);
	list_init(&vf_coro.link_ready);
	mgr->count_ready--;
	mgr->current = &vf_coro;
}

static Coroutine other;
static Timer*    timer_array[32];
static void begin(void)
{
	vf_init();
	coroutine_mgr_init(&am_task->coroutine_mgr, 4096);
	auto catcher = vf_coro.exception_mgr.last;
	coroutine_init(&vf_coro, &am_task->coroutine_mgr);
	vf_coro.exception_mgr.last = catcher;
	coroutine_init(&other, &am_task->coroutine_mgr);
	am_task->coroutine_mgr.current = &vf_coro;
	timer_mgr_init(&am_task->timer_mgr);
	am_task->timer_mgr.timers      = timer_array;
	am_task->timer_mgr.timers_max  = 32;
	am_task->timer_mgr.time_ms     = vf_range(0, UINT64_MAX / 4);
	am_task->timer_mgr.time_cached = true;
	others = NULL;
	suspended = notified = 0;
}
/* how often a coroutine is in the ready list, and that the list is sound */
static int ready(Coroutine* coro)
{
	auto mgr = &am_task->coroutine_mgr;
	int n = 0, all = 0;
	List* at = mgr->list_ready.next;
	for (int i = 0; i < 3; i++)
		if (at != &mgr->list_ready)
		{
			VF_ENSURES(at->next->prev == at && at->prev->next == at, "ready list: well formed");
			n += at == &coro->link_ready;
			all++;
			at = at->next;
		}
	VF_ENSURES(at == &mgr->list_ready && all == mgr->count_ready, "ready list: counted");
	return n;
}

/* contract event_signal_local: the event and the ones above it are set, and
 * exactly those who wait for one of them are made ready */
static Event chain[2];
VF_PROOF(signal)
{
	begin();
	int up = vf_range(0, 1), w = vf_range(0, 2), v = vf_range(0, 2);
	for (int i = 0; i < 2; i++)
	{
		event_init(&chain[i]);
		chain[i].signal = vf_bool();
	}
	if (up)
		event_set_parent(&chain[0], &chain[1]);
	bool was[2] = { chain[0].signal, chain[1].signal };
	VF_REQUIRES(w == 2 || w != v);
	for (int i = 0; i < 2; i++)
		chain[i].wait = i == w ? &vf_coro : i == v ? &other : NULL;
	bool already = vf_bool();
	if (already)
		coroutine_resume(&vf_coro);
	event_signal(&chain[0]);
	VF_REACH("signal");
	for (int i = 0; i < 2; i++)
		VF_ENSURES(chain[i].signal == (i <= up ? true : was[i]), "event_signal: sets the event and its parents");
	VF_ENSURES(ready(&vf_coro) == (already || w <= up), "event_signal: makes the waiter ready, once");
	VF_ENSURES(ready(&other) == (v <= up), "event_signal: makes the waiter ready, and nobody else");
	for (int i = 0; i < 2; i++)
		VF_ENSURES(i != w || chain[i].wait == &vf_coro, "event_signal: the waiter stays until it runs");
	VF_ENSURES(suspended == 0 && am_task->coroutine_mgr.current == &vf_coro, "event_signal: does not wait");
}

/* contract coroutine_resume: last in the ready list, unless it is there */
VF_PROOF(resume)
{
	begin();
	bool first = vf_bool();
	if (first)
		coroutine_resume(&other);
	coroutine_resume(&vf_coro);
	if (vf_bool())
		coroutine_resume(&vf_coro);
	if (vf_bool())
		coroutine_resume(&other);
	VF_REACH("resume");
	VF_ENSURES(ready(&vf_coro) == 1 && ready(&other) <= 1, "coroutine_resume: once");
	VF_ENSURES(am_task->coroutine_mgr.list_ready.next == (first ? &other.link_ready : &vf_coro.link_ready), "coroutine_resume: in turn");
}

/* contract coroutine_cancel: wakes and marks the coroutine, or is kept while
 * cancellation is paused; it takes effect when the last pause ends */
static int pauses, kept;
static void cancelled(void)
{
	VF_ENSURES(pauses == 1 && kept > 0, "cancel_resume: fails exactly at the end of the last pause, if cancelled in it");
	VF_ENSURES(vf_coro.cancel && vf_coro.cancel_pause == 0 && vf_coro.cancel_pause_recv == 0, "cancel_resume: the coroutine is cancelled");
}
static void point(void)
{
	VF_ENSURES(vf_coro.cancel, "cancellation_point: fails exactly if cancelled");
}
VF_PROOF(cancel)
{
	begin();
	vf_coro.cancel            = vf_bool();
	vf_coro.cancel_pause      = vf_range(0, 1000);
	vf_coro.cancel_pause_recv = vf_range(0, 1000);
	other = vf_coro;
	list_init(&other.link_ready);
	bool was = vf_coro.cancel;
	pauses = vf_coro.cancel_pause;
	kept   = vf_coro.cancel_pause_recv;
	switch (vf_range(0, 3)) {
	case 0:
		coroutine_cancel(&other);
		if (pauses > 0)
		{
			VF_ENSURES(other.cancel == was && ready(&other) == 0 && other.cancel_pause == pauses, "coroutine_cancel: nothing happens while paused");
			VF_ENSURES(other.cancel_pause_recv > 0, "coroutine_cancel: is not forgotten");
		} else {
			VF_ENSURES(other.cancel && coroutine_cancelled(&other), "coroutine_cancel: marks the coroutine");
			VF_ENSURES(ready(&other) == 1, "coroutine_cancel: wakes the coroutine");
		}
		VF_ENSURES(vf_coro.cancel == was && ready(&vf_coro) == 0, "coroutine_cancel: no other one");
		break;
	case 1:
		cancel_pause();
		VF_ENSURES(vf_coro.cancel_pause == pauses + 1 && vf_coro.cancel_pause_recv == kept && vf_coro.cancel == was, "cancel_pause: counted");
		break;
	case 2:
		VF_REQUIRES(pauses > 0);
		vf_may_throw = true;
		vf_on_throw  = cancelled;
		cancel_resume();
		VF_ENSURES(pauses > 1 || kept == 0, "cancel_resume: fails exactly at the end of the last pause, if cancelled in it");
		VF_ENSURES(vf_coro.cancel_pause == pauses - 1 && vf_coro.cancel_pause_recv == kept && vf_coro.cancel == was, "cancel_resume: counted");
		break;
	case 3:
		vf_may_throw = true;
		vf_on_throw  = point;
		cancellation_point();
		VF_ENSURES(! was, "cancellation_point: fails exactly if cancelled");
		break;
	}
	VF_REACH("cancel");
}

/* contract wait_event: a signal that came before is used up, at once; else the
 * coroutine sleeps as the one waiter until it is woken, and uses up the signal.
 * An event that was taken over by another waiter meanwhile is left alone. */
static Event ev;
static bool  taken, signalled, by_timer, by_cancel;
static void during_wait(void)
{
	VF_ENSURES(ev.wait == &vf_coro, "wait_event: is woken by the signal");
	VF_ENSURES(! ev.signal, "wait_event: no signal is there");
	if (vf_bool())
		event_signal(&ev);
	else
		coroutine_resume(&vf_coro);
	/* used again, for others (the end of another coroutine) */
	taken = vf_bool();
	if (taken)
	{
		event_init(&ev);
		ev.signal = vf_bool();
		signalled = ev.signal;
		if (vf_bool())
			ev.wait = &other;
	}
}
VF_PROOF(wait)
{
	begin();
	event_init(&ev);
	ev.signal = vf_bool();
	bool early = ev.signal;
	taken  = false;
	others = during_wait;
	wait_event(&ev, am_self());
	VF_REACH("wait");
	VF_ENSURES(suspended == (early ? 0 : 1), "wait_event: a signal that came before ends it at once");
	if (taken)
		VF_ENSURES((ev.wait == &other || ev.wait == NULL) && ev.signal == signalled, "wait_event: another waiter is left alone");
	else
		VF_ENSURES(ev.wait == NULL && ! ev.signal, "wait_event: the signal is used up, once");
	VF_ENSURES(am_self() == &vf_coro, "wait_event: goes on in the one that waited");
}

/* contract wait_event_time: the same, at most until the time given */
static int      limit;
static uint64_t start_ms;
static void during_time(void)
{
	auto mgr = &am_task->timer_mgr;
	VF_ENSURES(ev.wait == &vf_coro && ! ev.signal, "wait_event_time: is woken by the signal");
	VF_ENSURES(mgr->timers_count == (limit >= 0), "wait_event_time: a timer is set exactly if a time is given");
	if (limit >= 0)
		VF_ENSURES(timer_mgr_timer_min(mgr)->active && timer_mgr_timer_min(mgr)->timeout == start_ms + limit, "wait_event_time: the timer is set to the time given");
	int what = vf_range(0, 2);
	signalled = what == 0;
	by_timer  = what == 1;
	by_cancel = what == 2;
	if (signalled)
		event_signal(&ev);
	else
	if (by_timer)
	{
		VF_REQUIRES(limit >= 0);
		mgr->time_ms = start_ms + limit + vf_range(0, UINT32_MAX);
		int hits = timer_mgr_step(mgr);
		VF_ENSURES(hits == 1, "wait_event_time: the timer fires");
	} else
		coroutine_cancel(&vf_coro);
}
static void time_cancelled(void)
{
	VF_ENSURES(vf_coro.cancel, "event_wait: fails only when cancelled");
	VF_ENSURES(ev.wait == NULL && am_task->timer_mgr.timers_count == 0, "event_wait: nothing is left of a cancelled wait");
}
VF_PROOF(time)
{
	begin();
	event_init(&ev);
	ev.signal = vf_bool();
	bool early = ev.signal, before = vf_range(0, 3) == 0;
	limit     = (int)vf_srange(INT32_MIN, INT32_MAX);
	start_ms  = am_task->timer_mgr.time_ms;
	vf_coro.cancel = before;
	signalled = by_timer = by_cancel = false;
	others = during_time;
	vf_may_throw = true;
	vf_on_throw  = time_cancelled;
	bool timedout = event_wait(&ev, limit);
	VF_REACH("time");
	VF_ENSURES(! before && ! by_cancel, "event_wait: a cancelled coroutine does not go on");
	VF_ENSURES(suspended == (early ? 0 : 1), "event_wait: a signal that came before ends it at once");
	VF_ENSURES(timedout == (by_timer && limit > 0), "event_wait: tells whether the time ran out");
	VF_ENSURES(ev.wait == NULL && ! ev.signal, "event_wait: the signal is used up, once");
	VF_ENSURES(am_task->timer_mgr.timers_count == 0, "event_wait: no timer is left behind");
}

/* contract bus_send: queued, once until it is delivered; a sleeping task is
 * woken after the item is in the queue */
static void* ring_items[4];
static Task  dest;
static void dest_ready(void)
{
	bus_set_sleep(&dest.bus, vf_bool());
	ring_init(&dest.bus.ring);
	dest.bus.ring.ring      = ring_items;
	dest.bus.ring.ring_size = 4;
	mailbox_init(&dest.bus.mailbox);
	for (int i = 0; i < 4; i++)
		ring_items[i] = NULL;
}
static Msg   messages[3];
static Event evs[3];
VF_PROOF(send)
{
	begin();
	dest_ready();
	msg_init(&messages[0], MSG_REQ);
	event_init(&evs[0]);
	bus_attach(&dest.bus, &evs[0]);
	bool message = vf_bool(), queued = vf_bool(), sleeps = dest.bus.sleep;
	Ipc* ipc = message ? &messages[0].ipc : &evs[0].ipc;
	if (queued)
		ipc_ref(ipc);
	if (message)
		task_send(&dest, &messages[0]);
	else
		event_signal(&evs[0]);
	VF_REACH("send");
	VF_ENSURES(bus_pending(&dest.bus) == ! queued, "bus_send: queued, unless it is already");
	if (! queued)
	{
		VF_ENSURES(ring_items[0] == ipc && ring_read(&dest.bus.ring) == ipc && ring_read(&dest.bus.ring) == NULL, "bus_send: the item is queued once");
		VF_ENSURES(! sleeps || notified > 0, "bus_send: a sleeping task is woken");
	}
	VF_ENSURES(! evs[0].signal && suspended == 0, "bus_send: is delivered by the other task");
	VF_ENSURES(! ipc_ref(ipc), "bus_send: not queued again before it is delivered");
}

/* contract bus_step: delivers everything queued, in order */
VF_PROOF(deliver)
{
	begin();
	dest_ready();
	int n = vf_range(0, 3), count = 0;
	bool message[3], waits = vf_bool(), mail = vf_bool();
	for (int i = 0; i < 3; i++)
	{
		message[i] = vf_bool();
		msg_init(&messages[i], MSG_REQ);
		event_init(&evs[i]);
		bus_attach(&dest.bus, &evs[i]);
	}
	if (waits)
		evs[1].wait = &vf_coro;
	if (mail)
		dest.bus.mailbox.event.wait = &other;
	for (int i = 0; i < 3; i++)
		if (i < n)
		{
			bus_send(&dest.bus, message[i] ? &messages[i].ipc : &evs[i].ipc);
			count += message[i];
		}
	bus_step(&dest.bus);
	VF_REACH("deliver");
	VF_ENSURES(! bus_pending(&dest.bus), "bus_step: everything is delivered");
	VF_ENSURES(ready(&vf_coro) == (waits && n > 1 && !message[1]), "bus_step: an event wakes the one who waits for it");
	VF_ENSURES(ready(&other) == (mail && count > 0), "bus_step: a message wakes the receiver");
	VF_ENSURES(dest.bus.mailbox.event.signal == (count > 0), "bus_step: a message signals the mailbox");
	for (int i = 0; i < 3; i++)
	{
		VF_ENSURES(evs[i].signal == (i < n && !message[i]), "bus_step: exactly the events queued are signalled");
		VF_ENSURES(ipc_ref(&evs[i].ipc) && ipc_ref(&messages[i].ipc), "bus_step: what is delivered can be sent again");
	}
	for (int i = 0; i < 3; i++)
		if (i < n && message[i])
			VF_ENSURES(mailbox_pop_nowait(&dest.bus.mailbox) == &messages[i], "bus_step: messages are in the order sent");
	VF_ENSURES(mailbox_pop_nowait(&dest.bus.mailbox) == NULL, "bus_step: no other message");
}
