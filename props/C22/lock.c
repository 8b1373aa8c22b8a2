//@proof resolve kind=proof unwind=8 covers=lock_resolve
//@proof request kind=proof unwind=8 covers=lock_mgr_lock,lock_mgr_lock_of,event_attach,event_wait,wait_event
//@proof reentrant kind=bounded unwind=8 bound=a_coroutine_holding_up_to_2_locks covers=lock_mgr_lock
//@proof release kind=bounded unwind=8 timeout=600 bound=up_to_3_waiting_requests covers=lock_mgr_unlock,event_signal,bus_send
//@proof cancel kind=bounded unwind=8 timeout=600 bound=up_to_3_waiting_requests covers=lock_mgr_unlock
//@proof strength kind=bounded unwind=8 bound=up_to_3_demands_on_2_relations covers=access_add,access_merge
//@flags -DVF_NO_REALLOC
//@rewrite \(Lock\*\)\s*(palloc|malloc)\(sizeof\(Lock\)\) ==> (Lock*)&vf_lock
//@assume a spinlock is a mutual exclusion lock (its steps are atomic)
//@assume other threads only change a relation the way the contracts here allow
#include <vf.h>
/* the point where a spinlock is released (other threads may run from here) */
static inline void vf_released(uint64_t*);
#define __sync_lock_release(p) vf_released(p)
struct Lock;
extern struct Lock vf_lock;      /* memory of a new lock (verifier only) */
#include <amelie_runtime>
#include <vf_env.h>
void notify_signal(Notify* self) { (void)self; }   /* nobody sleeps in these contracts */

/*
 * Which requests may be granted at the same time on one relation
 * (documented semantics): EXCLUSIVE goes with nothing, changes of rows
 * (SHARED_RW) do not go with a consistent read of all partitions
 * (EXCLUSIVE_RO), all other combinations go together.
 */
static bool compatible(int a, int b)
{
	if (a == LOCK_NONE || b == LOCK_NONE)
		return true;
	if (a == LOCK_EXCLUSIVE || b == LOCK_EXCLUSIVE)
		return false;
	return !((a == LOCK_SHARED_RW && b == LOCK_EXCLUSIVE_RO) ||
	         (b == LOCK_SHARED_RW && a == LOCK_EXCLUSIVE_RO));
}
/* may a be granted, given the numbers of granted locks */
static bool grantable(const int* set, int a)
{
	for (int b = LOCK_SHARED; b < LOCK_MAX; b++)
		if (set[b] > 0 && !compatible(a, b))
			return false;
	return true;
}
/* every two granted locks are compatible */
static bool consistent(const int* set)
{
	for (int a = LOCK_SHARED; a < LOCK_MAX; a++)
	{
		if (set[a] > 1 && !compatible(a, a))
			return false;
		for (int b = a + 1; b < LOCK_MAX; b++)
			if (set[a] > 0 && set[b] > 0 && !compatible(a, b))
				return false;
	}
	return true;
}
static void any_set(int* set)
{
	for (int a = LOCK_SHARED; a < LOCK_MAX; a++)
		set[a] = vf_range(0, 1000000);
	set[LOCK_NONE] = 0;
	VF_REQUIRES(consistent(set));
}

struct Lock vf_lock;
static Relation rel;
static LockMgr  mgr;
#define WAIT 3
static Lock     old[WAIT + 1];          /* requests that are there already */
static void*    ring_mem[8];
static char     empty[1];
static const char* fn = "function";

static bool running;
static void setup(void)
{
	running = false;
	vf_init();
	vf_coro.mgr = &am_task->coroutine_mgr;
	list_init(&vf_coro.locks);
	VF_NATIVE_ONLY(if (! vf_coro.arena.size_page) arena_init(&vf_coro.arena, 4096);)
	VF_NATIVE_ONLY(arena_reset(&vf_coro.arena);)
	ring_init(&am_task->bus.ring);
	am_task->bus.ring.ring = ring_mem;
	am_task->bus.ring.ring_size = 8;
	relation_init(&rel);
	lock_mgr_init(&mgr);
	any_set(rel.lock_set);
}

/* whoever sees a waiting request can wake it up */
static inline void vf_released(uint64_t* lock)
{
	__atomic_store_n(lock, 0, __ATOMIC_RELEASE);
	if (lock != &rel.lock || !running || rel.lock_wait_count == 0)
		return;
	Lock* last = container_of(list_last(&rel.lock_wait), Lock, link);
	VF_ENSURES(event_attached(&last->event), "request: a waiting request can be woken up from any thread once it is visible");
}

VF_PROOF(resolve)
{
	setup();
	int id = vf_range(LOCK_SHARED, LOCK_CALL);
	int set[LOCK_MAX];
	memcpy(set, rel.lock_set, sizeof(set));
	VF_REACH("resolve");
	VF_ENSURES(lock_resolve(&rel, id) == grantable(set, id), "resolve: granted exactly when compatible with every granted lock");
	for (int a = 0; a < LOCK_MAX; a++)
		VF_ENSURES(rel.lock_set[a] == set[a], "resolve: changes nothing");
}

/*
 * Another thread runs while the coroutine is suspended.
 */
static int  set_before[LOCK_MAX], waiting_before, id_asked;
static bool suspended;
static Lock* blocked;
void context_swap(Context* a, Context* b)
{
	(void)a; (void)b;
	suspended = true;
	Lock* lock = container_of(list_last(&rel.lock_wait), Lock, link);
	blocked = lock;
	VF_ENSURES(rel.lock == 0, "request: the relation is not left locked while waiting");
	VF_ENSURES(rel.lock_wait_count == waiting_before + 1, "request: a request that is not granted waits, last in the line");
	VF_ENSURES(lock->waiting && lock->rel == &rel && (int)lock->rel_lock == id_asked, "request: the waiting request is the one asked for");
	for (int i = 0; i < LOCK_MAX; i++)
		VF_ENSURES(rel.lock_set[i] == set_before[i], "request: not granted while waiting");
	VF_ENSURES(lock->event.wait == &vf_coro, "request: the coroutine can be woken up");
	/* granted by the other thread */
	rel.lock_set[id_asked]++;
	rel.lock_wait_count--;
	lock->waiting = false;
	list_unlink(&lock->link);
	am_task->coroutine_mgr.current = &vf_coro;
}

/* the request is visible to other threads from the moment the relation is
 * unlocked: it has to be complete then */
static void request_of(bool waiters, bool named)
{
	setup();
	suspended = false;
	blocked = NULL;
	if (waiters)
	{
		/* any number of requests is waiting, old[0] is the last */
		rel.lock_wait_count = vf_range(1, 1000000);
		list_append(&rel.lock_wait, &old[0].link);
		event_init(&old[0].event);
		event_attach(&old[0].event);
	}
	mgr.list_count = vf_range(0, 1000000);
	int count = mgr.list_count;
	static char name_str[] = "n";
	Str name;
	str_set(&name, name_str, 1);
	int id = vf_range(LOCK_NONE, LOCK_CALL);
	memcpy(set_before, rel.lock_set, sizeof(set_before));
	waiting_before = rel.lock_wait_count;
	id_asked = id;
	bool pass = !waiters && grantable(rel.lock_set, id);

	VF_REACH("request");
	running = true;
	Lock* lock = lock_mgr_lock(&mgr, &rel, id, named ? &name : NULL, fn);
	if (id == LOCK_NONE)
	{
		VF_ENSURES(lock == NULL && mgr.list_count == count && rel.lock_wait_count == waiting_before, "request: nothing to lock");
		VF_ENSURES(grantable(set_before, id) && list_empty(&vf_coro.locks), "request: nothing to lock");
		return;
	}
	VF_ENSURES(suspended == !pass, "request: waits exactly if others wait already or a granted lock conflicts");
	VF_ENSURES(lock && lock->rel == &rel && (int)lock->rel_lock == id && !lock->waiting, "request: the lock is of the relation and kind asked for");
	VF_ENSURES(!suspended || lock == blocked, "request: the lock returned is the one that waited");
	for (int i = 0; i < LOCK_MAX; i++)
		VF_ENSURES(rel.lock_set[i] == set_before[i] + (i == id), "request: granted once");
	VF_ENSURES(pass == false || consistent(rel.lock_set), "request: all granted locks stay compatible");
	VF_ENSURES(rel.lock_wait_count == waiting_before && rel.lock == 0 && mgr.lock == 0, "request: waiting requests are as before");
	VF_ENSURES(mgr.list_count == count + 1 && list_last(&mgr.list) == &lock->link_mgr, "request: the lock is listed");
	if (named)
		VF_ENSURES(lock->coro == NULL && list_empty(&vf_coro.locks) && str_compare(&lock->name, &name), "request: a named lock belongs to nobody");
	else
		VF_ENSURES(lock->coro == &vf_coro && lock->refs == 1 && list_last(&vf_coro.locks) == &lock->link && list_first(&vf_coro.locks) == &lock->link, "request: the lock belongs to the coroutine");
}
VF_PROOF(request)
{
	if (vf_bool())
		request_of(vf_bool(), false);
	else
		request_of(vf_bool(), true);
}

/* a coroutine that holds locks already */
static void reentrant_id(int id, int first, bool before, bool differs)
{
	setup();
	static Relation other;
	relation_init(&other);
	/* old[first] is the one asked for, the other one differs in kind or relation */
	for (int i = 0; i < 2; i++)
	{
		Lock* l = &old[i];
		l->rel = i != first && differs ? &other : &rel;
		l->rel_lock = i == first ? id : (int)vf_range(LOCK_SHARED, LOCK_CALL);
		if (i != first && !differs)
			VF_REQUIRES((int)l->rel_lock != id);
		l->refs = vf_range(1, 1000000);
		l->coro = &vf_coro;
		if (i == first || before)
			list_append(&vf_coro.locks, &l->link);
	}
	Lock* same = &old[first];
	int refs = same->refs;
	memcpy(set_before, rel.lock_set, sizeof(set_before));
	VF_REACH("reentrant");
	Lock* lock = lock_mgr_lock(&mgr, &rel, id, NULL, fn);
	VF_ENSURES(lock == same && same->refs == refs + 1, "request: a lock held already is shared");
	for (int i = 0; i < LOCK_MAX; i++)
		VF_ENSURES(rel.lock_set[i] == set_before[i], "request: a lock held already is not taken again");
	VF_ENSURES(mgr.list_count == 0 && rel.lock_wait_count == 0, "request: a lock held already is not taken again");
	/* given back as often as taken */
	lock_mgr_unlock(&mgr, same);
	VF_ENSURES(same->refs == refs && same->rel == &rel && same->coro == &vf_coro, "release: a shared lock is kept until given back by all");
	for (int i = 0; i < LOCK_MAX; i++)
		VF_ENSURES(rel.lock_set[i] == set_before[i], "release: a shared lock is kept until given back by all");
}
static void reentrant_of(int first, bool before, bool differs)
{
	switch (vf_range(LOCK_SHARED, LOCK_CALL)) {
	case LOCK_SHARED:       reentrant_id(LOCK_SHARED, first, before, differs); break;
	case LOCK_SHARED_RW:    reentrant_id(LOCK_SHARED_RW, first, before, differs); break;
	case LOCK_EXCLUSIVE_RO: reentrant_id(LOCK_EXCLUSIVE_RO, first, before, differs); break;
	case LOCK_EXCLUSIVE:    reentrant_id(LOCK_EXCLUSIVE, first, before, differs); break;
	default:                reentrant_id(LOCK_CALL, first, before, differs); break;
	}
}
VF_PROOF(reentrant)
{
	switch (vf_range(0, 4)) {
	case 0:  reentrant_of(0, false, false); break;
	case 1:  reentrant_of(0, true, false); break;
	case 2:  reentrant_of(0, true, true); break;
	case 3:  reentrant_of(1, true, false); break;
	default: reentrant_of(1, true, true); break;
	}
}

/*
 * Giving a lock back. The line of waiting requests starts with one that
 * conflicts with the granted locks (established by request and by this).
 */
static void waiting_line(int waiters)
{
	for (int i = 0; i < WAIT; i++)
		if (i < waiters)
		{
			Lock* l = &old[i];
			l->rel = &rel;
			l->rel_lock = vf_range(LOCK_SHARED, LOCK_CALL);
			l->waiting = true;
			l->coro = NULL;
			l->refs = 0;
			str_set(&l->name, empty, 0);
			event_init(&l->event);
			event_attach(&l->event);
			list_append(&rel.lock_wait, &l->link);
			list_append(&mgr.list, &l->link_mgr);
			rel.lock_wait_count++;
			mgr.list_count++;
		}
	if (waiters > 0)
		VF_REQUIRES(! grantable(rel.lock_set, old[0].rel_lock));
}
/* the state that has to be reached: set = granted locks after the release,
 * line[] = requests still in line */
static void served(int* set, Lock** line, int waiters)
{
	int granted = 0;
	while (granted < waiters && grantable(set, line[granted]->rel_lock))
	{
		set[line[granted]->rel_lock]++;
		granted++;
	}
	for (int a = 0; a < LOCK_MAX; a++)
		VF_ENSURES(rel.lock_set[a] == set[a], "release: requests at the head of the line are granted, as long as they are compatible");
	VF_ENSURES(consistent(rel.lock_set), "release: all granted locks stay compatible");
	VF_ENSURES(rel.lock_wait_count == waiters - granted, "release: the others wait on");
	VF_ENSURES(am_task->bus.ring.pos_write == (uint64_t)granted, "release: every granted request is woken up, once");
	List* at = &rel.lock_wait;
	for (int i = 0; i < WAIT; i++)
	{
		if (i >= waiters)
			break;
		Lock* l = line[i];
		VF_ENSURES(l->waiting == (i >= granted), "release: a request is waiting until granted");
		if (i < granted)
			VF_ENSURES(ring_mem[i] == &l->event.ipc, "release: granted requests are woken up in order");
		else
		{
			VF_ENSURES(at->next == &l->link && l->link.prev == at, "release: the order of waiting requests is kept");
			at = &l->link;
		}
	}
	VF_ENSURES(at->next == &rel.lock_wait && rel.lock_wait.prev == at, "release: the order of waiting requests is kept");
	VF_ENSURES(rel.lock == 0 && mgr.lock == 0, "release: nothing is left locked");
}
static void release_of(int waiters)
{
	setup();
	static Lock own;
	own.rel = &rel;
	own.rel_lock = vf_range(LOCK_SHARED, LOCK_CALL);
	own.waiting = false;
	str_set(&own.name, empty, 0);
	own.coro = NULL;
	own.refs = 0;
	if (vf_bool())
	{
		own.coro = &vf_coro;
		own.refs = 1;
		list_append(&vf_coro.locks, &own.link);
	}
	list_append(&mgr.list, &own.link_mgr);
	mgr.list_count++;
	VF_REQUIRES(rel.lock_set[own.rel_lock] > 0);
	waiting_line(waiters);
	Lock* line[WAIT] = { &old[0], &old[1], &old[2] };
	int set[LOCK_MAX];
	memcpy(set, rel.lock_set, sizeof(set));
	set[own.rel_lock]--;
	VF_REACH("release");
	running = true;
	lock_mgr_unlock(&mgr, &own);
	served(set, line, waiters);
	VF_ENSURES(mgr.list_count == waiters && list_first(&mgr.list) == (waiters ? &old[0].link_mgr : &mgr.list), "release: the lock is not listed anymore");
	VF_ENSURES(list_empty(&vf_coro.locks), "release: the coroutine does not have the lock anymore");
}
VF_PROOF(release)
{
	switch (vf_range(0, WAIT)) {
	case 0:  release_of(0); break;
	case 1:  release_of(1); break;
	case 2:  release_of(2); break;
	default: release_of(3); break;
	}
}

/* taking back a request that is still waiting (its coroutine was cancelled) */
static void cancel_of(int waiters, int which)
{
	setup();
	waiting_line(waiters);
	Lock* line[WAIT];
	for (int i = 0, j = 0; i < WAIT; i++)
		if (i != which)
			line[j++] = &old[i];
	line[WAIT - 1] = NULL;
	int set[LOCK_MAX];
	memcpy(set, rel.lock_set, sizeof(set));
	VF_REACH("cancel");
	lock_mgr_unlock(&mgr, &old[which]);
	served(set, line, waiters - 1);
	VF_ENSURES(mgr.list_count == waiters - 1, "release: the request is not listed anymore");
}
VF_PROOF(cancel)
{
	switch (vf_range(0, 5)) {
	case 0:  cancel_of(1, 0); break;
	case 1:  cancel_of(2, 0); break;
	case 2:  cancel_of(2, 1); break;
	case 3:  cancel_of(3, 0); break;
	case 4:  cancel_of(3, 1); break;
	default: cancel_of(3, 2); break;
	}
}

/*
 * What a statement locks: every relation once, with a lock that conflicts
 * with everything one of its demands conflicts with.
 */
static AccessRecord records[8];
static int          ordered[8];
static void access_over(Access* a, AccessRecord* r, int* o)
{
	access_init(a);
	buf_init(&a->list);
	buf_init(&a->list_ordered);
	a->list.start = a->list.position = (uint8_t*)r;
	a->list.end = (uint8_t*)(r + 4);
	a->list_ordered.start = a->list_ordered.position = (uint8_t*)o;
	a->list_ordered.end = (uint8_t*)(o + 4);
}
static void strength_of(int demands)
{
	vf_init();
	static Relation rels[2];
	Access a;
	access_over(&a, records, ordered);
	int rel_of[3], id_of[3];
	VF_REACH("strength");
	for (int i = 0; i < 3; i++)
		if (i < demands)
		{
			rel_of[i] = vf_range(0, 1);
			id_of[i] = vf_range(LOCK_SHARED, LOCK_CALL);
			access_add(&a, &rels[rel_of[i]], id_of[i]);
		}
	for (int r = 0; r < 2; r++)
	{
		int n = 0, id = 0, asked = 0, calls = 0;
		for (int i = 0; i < 2; i++)
			if (i < a.list_count && records[i].rel == &rels[r])
			{
				n++;
				id = records[i].lock;
			}
		for (int i = 0; i < 3; i++)
			if (i < demands && rel_of[i] == r)
			{
				asked++;
				if (id_of[i] == LOCK_CALL)
					calls++;
				for (int other = LOCK_SHARED; other < LOCK_MAX; other++)
					VF_ENSURES(compatible(id_of[i], other) || !compatible(id, other), "access: the lock taken is as strong as every demand");
			}
		VF_ENSURES(n == (asked > 0), "access: every relation once");
		VF_ENSURES(asked == 0 || (id == LOCK_CALL) == (asked == calls), "access: a relation that is read or written is not only called");
		VF_ENSURES(asked != 1 || id == id_of[0] || rel_of[0] != r, "access: a single demand is taken as it is");
	}
	VF_ENSURES(a.list_count <= 2, "access: nothing else");
	bool seen[2] = { false, false };
	for (int i = 0; i < 2; i++)
		if (i < a.list_count)
		{
			int at = ordered[i];
			VF_ENSURES(at >= 0 && at < a.list_count && !seen[at], "access: the order lists every relation once");
			seen[at] = true;
		}
}
VF_PROOF(strength)
{
	switch (vf_range(1, 3)) {
	case 1:  strength_of(1); break;
	case 2:  strength_of(2); break;
	default: strength_of(3); break;
	}
}
