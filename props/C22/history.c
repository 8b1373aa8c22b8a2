//@proof history kind=native fuzz=30000 ttimeout=300 bound=up_to_8_sessions_of_up_to_6_statements_over_4_relations covers=lock_mgr_lock,lock_mgr_lock_access,lock_mgr_unlock,lock_mgr_find,lock_mgr_count,unlock_all,access_merge,access_sort,task_execute,bus_step
//@nflags -fno-sanitize=address -fsanitize-trap=undefined
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "base/context.c"
#include "base/context_stack.c"
#include "base/timer_mgr.c"
#include "base/poller.c"
#include "base/notify.c"
#include "base/task.c"

static bool compatible(int a, int b)
{
	if (a == LOCK_EXCLUSIVE || b == LOCK_EXCLUSIVE)
		return false;
	return !((a == LOCK_SHARED_RW && b == LOCK_EXCLUSIVE_RO) ||
	         (b == LOCK_SHARED_RW && a == LOCK_EXCLUSIVE_RO));
}

#define RELS 4
#define WORK 8
static Relation rels[RELS];
static Runtime  rt;
static Task     task;
static Str      names[RELS], db;
static LockMgr* mgr = &rt.lock_mgr;

/* what every session may do now, by what it was granted */
static int  may[WORK][RELS];          /* 0: nothing, else LockId of each demand (bit mask) */
static bool done[WORK], dead[WORK];
static uint64_t ids[WORK];
static int  workers, named_count;

/* the state visible between any two steps */
static void monitor(void)
{
	int set[RELS][LOCK_MAX], wait[RELS];
	memset(set, 0, sizeof(set));
	memset(wait, 0, sizeof(wait));
	int n = 0;
	list_foreach(&mgr->list)
	{
		auto lock = list_at(Lock, link_mgr);
		n++;
		VF_ENSURES(lock->rel >= rels && lock->rel < rels + RELS, "locks: listed locks are in use");
		if (lock->waiting)
			wait[lock->rel - rels]++;
		else
			set[lock->rel - rels][lock->rel_lock]++;
	}
	VF_ENSURES(n == mgr->list_count, "locks: all are listed");
	for (int r = 0; r < RELS; r++)
	{
		VF_ENSURES(rels[r].lock == 0 && wait[r] == rels[r].lock_wait_count, "locks: the waiting requests are listed");
		for (int a = LOCK_SHARED; a < LOCK_MAX; a++)
		{
			VF_ENSURES(set[r][a] == rels[r].lock_set[a], "locks: the granted locks are counted");
			for (int b = a; b < LOCK_MAX; b++)
				if (set[r][a] > (a == b) && set[r][b] > 0)
					VF_ENSURES(compatible(a, b), "locks: conflicting locks are never granted together");
		}
		int i = 0;
		list_foreach(&rels[r].lock_wait)
		{
			auto lock = list_at(Lock, link);
			VF_ENSURES(lock->waiting && lock->rel == &rels[r], "locks: the line has waiting requests");
			if (i++ == 0)
			{
				bool ok = true;
				for (int a = LOCK_SHARED; a < LOCK_MAX; a++)
					if (set[r][a] > 0 && !compatible(a, lock->rel_lock))
						ok = false;
				VF_ENSURES(!ok, "locks: the first waiting request is blocked by a granted lock");
			}
		}
		VF_ENSURES(i == wait[r], "locks: the line has waiting requests");
	}
	/* what the sessions rely on */
	for (int w = 0; w < workers; w++)
		for (int v = w + 1; v < workers; v++)
			for (int r = 0; r < RELS; r++)
				for (int a = LOCK_SHARED; a < LOCK_MAX; a++)
					for (int b = LOCK_SHARED; b < LOCK_MAX; b++)
						if ((may[w][r] >> a & 1) && (may[v][r] >> b & 1))
							VF_ENSURES(compatible(a, b), "locks: statements that exclude each other never run together");
}
static void pass(void)
{
	if (vf_range(0, 3) == 0)
		coroutine_yield();
	else
	{
		coroutine_resume(am_self());
		coroutine_suspend(am_self());
		cancellation_point();
	}
}
static void statement(int w)
{
	Access access, udf;
	access_init(&access);
	access_init(&udf);
	int want[RELS] = { 0 };
	int n = vf_range(1, 5), m = vf_range(0, 2);
	for (int i = 0; i < n + m; i++)
	{
		int r = vf_range(0, RELS - 1), id = vf_range(LOCK_SHARED, LOCK_EXCLUSIVE);
		if (id == LOCK_EXCLUSIVE && vf_range(0, 3))
			id = LOCK_SHARED;
		if (vf_range(0, 5) == 0)
			id = LOCK_CALL;
		access_add(i < n ? &access : &udf, &rels[r], id);
		want[r] |= 1 << id;
	}
	if (m)
		access_merge(&access, &udf);
	access_sort(&access);
	for (int i = 0; i < access.list_count; i++)
		for (int j = 0; j < i; j++)
			VF_ENSURES(access_at_ordered(&access, j)->rel->lock_order < access_at_ordered(&access, i)->rel->lock_order, "access: relations are locked in the common order");
	bool bad = error_catch( lock_mgr_lock_access(mgr, &access, "test") );
	if (! bad)
	{
		memcpy(may[w], want, sizeof(want));
		monitor();
		bad = error_catch(
			for (int i = vf_range(0, 3); i > 0; i--)
			{
				pass();
				monitor();
			}
			if (vf_bool() && access.list_count)
			{
				/* asked for again by the same session */
				auto record = access_at(&access, 0);
				auto again = lock_mgr_lock(mgr, record->rel, record->lock, NULL, "test");
				monitor();
				lock_mgr_unlock(mgr, again);
				monitor();
			}
		);
	}
	memset(may[w], 0, sizeof(may[w]));
	access_free(&access);
	access_free(&udf);
	unlock_all();
	monitor();
	if (bad)
		rethrow();
}
static void named(int w)
{
	char text[16];
	sfmt(text, sizeof(text), "lock%d", w);
	Str name;
	str_set_cstr(&name, text);
	int r = vf_range(0, RELS - 1), id = vf_range(LOCK_SHARED, LOCK_EXCLUSIVE);
	VF_ENSURES(! lock_mgr_find(mgr, &name), "locks: a named lock is found by its name only");
	auto lock = lock_mgr_lock(mgr, &rels[r], id, &name, "test");
	may[w][r] = 1 << id;
	monitor();
	bool bad = error_catch(
		for (int i = vf_range(0, 3); i > 0; i--)
		{
			pass();
			monitor();
		}
	);
	VF_ENSURES(lock_mgr_find(mgr, &name) == lock, "locks: a named lock is found by its name");
	may[w][r] = 0;
	lock_mgr_unlock(mgr, lock);
	monitor();
	if (bad)
		rethrow();
}
static void worker(void* arg)
{
	int w = (int)(intptr_t)arg;
	bool bad = error_catch(
		for (int i = vf_range(1, 6); i > 0; i--)
		{
			palloc_reset();
			if (vf_range(0, 7) == 0)
				named(w);
			else
				statement(w);
			if (vf_range(0, 1))
				pass();
		}
	);
	/* the memory of a finished session is used again */
	palloc_reset();
	memset(palloc(1000), 0xff, 1000);
	memset(palloc(1000), 0xff, 1000);
	monitor();
	VF_ENSURES(!bad || am_self()->cancel, "locks: a request fails only if cancelled");
	done[w] = true;
}
static void driver(void* arg)
{
	(void)arg;
	for (int w = 0; w < workers; w++)
		ids[w] = coroutine_create(worker, (void*)(intptr_t)w);
	bool cancels = vf_bool();
	for (int i = 0; ; i++)
	{
		bool all = true;
		for (int w = 0; w < workers; w++)
			all = all && done[w];
		if (all)
			break;
		VF_ENSURES(i < 4000, "locks: every request is granted or cancelled at last");
		coroutine_yield();
		monitor();
		if (cancels && vf_range(0, 5) == 0)
		{
			int w = vf_range(0, workers - 1);
			if (! done[w])
				coroutine_kill_nowait(ids[w]);
		}
	}
	VF_ENSURES(mgr->list_count == 0, "locks: none is left");
	for (int r = 0; r < RELS; r++)
	{
		VF_ENSURES(lock_mgr_count(mgr, &names[r]) == 0, "locks: none is left");
		for (int a = 0; a < LOCK_MAX; a++)
			VF_ENSURES(rels[r].lock_set[a] == 0, "locks: none is left");
	}
}
VF_PROOF(history)
{
	vf_init();
	static char* text[RELS] = { "a", "b", "c", "d" };
	lock_mgr_init(mgr);
	for (int r = 0; r < RELS; r++)
	{
		relation_init(&rels[r]);
		str_set_cstr(&names[r], text[r]);
		relation_set_db(&rels[r], &db);
		relation_set_name(&rels[r], &names[r]);
		relation_set_rsn(&rels[r], r + 1);
	}
	memset(may, 0, sizeof(may));
	memset(done, 0, sizeof(done));
	workers = vf_range(2, WORK);
	task_init(&task);
	int rc = task_create_nothrow(&task, "test", NULL, NULL, &rt, NULL, NULL, NULL, &vf_buf_mgr);
	VF_REQUIRES(rc == 0);
	VF_REACH("history");
	task_execute(&task, driver, NULL);
	task_free(&task);
}
