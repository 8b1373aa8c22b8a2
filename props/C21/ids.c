//@proof add unwind=6 kind=bounded bound=up_to_5_files covers=id_mgr_add
//@proof del unwind=6 kind=bounded bound=up_to_5_files covers=id_mgr_delete
//@proof query unwind=6 kind=bounded bound=up_to_5_files covers=id_mgr_min,id_mgr_max,id_mgr_find,id_mgr_next,id_mgr_stats,id_mgr_copy
//@proof gc unwind=6 kind=bounded bound=up_to_5_files covers=id_mgr_gc_between
//@proof file_id kind=bounded qkind=native unwind=22 bound=names_of_up_to_20_characters covers=wal_file_id_of
//@proof slots unwind=4 kind=bounded bound=up_to_3_readers covers=wal_slots,wal_add,wal_del
//@flags -DVF_NO_REALLOC -DVF_WORD_MEMMOVE=6 -DVF_WORD_MEMCPY
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>
#include <vf_env.h>
#undef error_catch
#include <amelie_runtime>
#define CAP 8
static uint64_t mem[CAP], mem2[CAP];
static IdMgr m;
static uint64_t was[CAP];
static int n;

/* any set of file ids, ascending, no id twice */
static void any_ids(int lo)
{
	vf_init();
	spinlock_init(&m.lock);
	n = vf_range(lo, 5);
	for (int i = 0; i < 5; i++)
	{
		mem[i] = was[i] = vf_range(0, UINT64_MAX - 1);
		VF_REQUIRES(i == 0 || i >= n || was[i] > was[i - 1]);
	}
	m.list.start = (uint8_t*)mem;
	m.list.position = (uint8_t*)(mem + n);
	m.list.end = (uint8_t*)(mem + CAP);
	m.list_count = n;
}
static void invariant(void)
{
	VF_ENSURES(buf_size(&m.list) == m.list_count * 8, "ids: count and list agree");
	for (int i = 1; i < 6; i++)
		VF_ENSURES(i >= m.list_count || mem[i] > mem[i - 1], "ids: ascending, no id twice");
}
static int has(uint64_t* list, int count, uint64_t id)
{
	for (int i = 0; i < 6; i++)
		if (i < count && list[i] == id)
			return 1;
	return 0;
}
VF_PROOF(add)
{
	any_ids(0);
	uint64_t id = vf_range(0, UINT64_MAX - 1), any = vf_u64();
	VF_REQUIRES(! has(was, n, id));
	id_mgr_add(&m, id);
	VF_REACH("add");
	invariant();
	VF_ENSURES(m.list_count == n + 1, "ids: one more");
	VF_ENSURES(has(mem, n + 1, any) == (any == id || has(was, n, any)), "ids: the new one and all others, no more");
}
VF_PROOF(del)
{
	any_ids(0);
	uint64_t id = vf_u64(), any = vf_u64();
	id_mgr_delete(&m, id);
	VF_REACH("delete");
	invariant();
	VF_ENSURES(m.list_count == n - has(was, n, id), "ids: one less when present");
	VF_ENSURES(has(mem, m.list_count, any) == (any != id && has(was, n, any)), "ids: every other id stays");
}
VF_PROOF(query)
{
	any_ids(0);
	uint64_t v = vf_u64(), any = vf_u64();
	VF_REQUIRES(any < UINT64_MAX);
	VF_REACH("query");
	VF_ENSURES(id_mgr_min(&m) == (n ? was[0] : UINT64_MAX), "ids: smallest");
	VF_ENSURES(id_mgr_max(&m) == (n ? was[n - 1] : UINT64_MAX), "ids: largest");
	int count; uint64_t min;
	id_mgr_stats(&m, &count, &min);
	VF_ENSURES(count == n && min == (n ? was[0] : UINT64_MAX), "ids: stats");
	/* the file a position is in: the largest id that is not above it */
	uint64_t at = id_mgr_find(&m, v);
	if (at == UINT64_MAX)
		VF_ENSURES(! n || was[0] > v, "ids: not found only before the first file");
	else
		VF_ENSURES(has(was, n, at) && at <= v && ! (has(was, n, any) && any <= v && any > at), "ids: the nearest file at or before a position");
	uint64_t next = id_mgr_next(&m, v);
	if (next == UINT64_MAX)
		VF_ENSURES(! n || was[n - 1] <= v, "ids: no next only behind the last file");
	else
		VF_ENSURES(has(was, n, next) && next > v && ! (has(was, n, any) && any > v && any < next), "ids: the next file, none skipped");
	Buf to;
	buf_init(&to);
	to.start = to.position = (uint8_t*)mem2;
	to.end = (uint8_t*)(mem2 + CAP);
	int c = id_mgr_copy(&m, &to, v);
	VF_ENSURES(buf_size(&to) == c * 8, "ids: copy size");
	VF_ENSURES(has(mem2, c, any) == (has(was, n, any) && any <= v), "ids: copy of all ids up to a limit");
	for (int i = 0; i < 5; i++)
		VF_ENSURES(i >= n || mem[i] == was[i], "ids: queries change nothing");
	invariant();
}
VF_PROOF(gc)
{
	any_ids(0);
	uint64_t min = vf_u64(), any = vf_u64();
	VF_REQUIRES(any < UINT64_MAX);
	Buf to;
	buf_init(&to);
	to.start = to.position = (uint8_t*)mem2;
	to.end = (uint8_t*)(mem2 + CAP);
	/* every record from min on is in the file nearest to it and the later ones */
	uint64_t keep = id_mgr_find(&m, min);
	int c = id_mgr_gc_between(&m, &to, min);
	VF_REACH("gc");
	invariant();
	VF_ENSURES(buf_size(&to) == c * 8, "log retention: removed list");
	VF_ENSURES(has(mem2, c, any) + has(mem, m.list_count, any) == has(was, n, any), "log retention: a file is either kept or removed");
	VF_ENSURES(! has(mem2, c, any) || (keep != UINT64_MAX && any < keep), "log retention: a file that holds records from the position on is never removed");
	VF_ENSURES(! (has(mem, m.list_count, any) && keep != UINT64_MAX && any < keep), "log retention: every older file is removed");
}
#include "os/vfs.c"
void notify_signal(Notify* self) { (void)self; }
#undef defer
#define defer(a, b) do { } while (0)
#undef error_catch
#define error_catch(...) ({ __VA_ARGS__; 0; })
#include "wal/wal.c"
VF_PROOF(file_id)
{
	vf_init();
	/* any name of up to 20 characters */
	char name[22];
	int len = vf_range(0, 20);
	for (int i = 0; i < 21; i++)
		name[i] = i < len ? vf_u8() : 0;
	uint64_t value = 0;
	bool ok = true;
	__int128 v = 0;
	for (int i = 0; i < 20; i++)
	{
		if (! name[i])
			break;
		if (name[i] < '0' || name[i] > '9')
			ok = false;
		else if (ok)
			v = v * 10 + (name[i] - '0');
		if (v > INT64_MAX)
			ok = false;
	}
	value = (uint64_t)v;
	int64_t id = wal_file_id_of(name);
	VF_REACH("file id");
	VF_ENSURES(ok ? id == (int64_t)value : id == -1, "log file names: the number in the name, or not a log file");
}
VF_PROOF(slots)
{
	vf_init();
	static Wal w;
	static WalSlot s[3];
	mutex_init(&w.lock);
	list_init(&w.slots);
	w.slots_count = 0;
	int count = vf_range(0, 3);
	uint64_t limit = vf_u64(), min = limit;
	bool gone[3];
	for (int i = 0; i < 3; i++)
		if (i < count)
		{
			wal_slot_init(&s[i]);
			s[i].lsn = vf_u64();
			wal_add(&w, &s[i]);
		}
	int left = 0;
	uint64_t want = limit;
	for (int i = 0; i < 3; i++)
		if (i < count)
		{
			gone[i] = vf_bool();
			if (gone[i])
				wal_del(&w, &s[i]);
			else {
				left++;
				if (s[i].lsn < want)
					want = s[i].lsn;
			}
		}
	int c = wal_slots(&w, &min);
	VF_REACH("slots");
	VF_ENSURES(c == left, "log retention: number of readers");
	VF_ENSURES(min == want, "log retention: the log is kept from the slowest reader on");
}
