//@proof insert kind=bounded bound=at_most_2_secondary_indexes unwind=4 covers=part_insert,log_if_commit,log_if_abort,log_if_secondary_abort,log_if_rollback,tr_commit,tr_abort,log_row,log_persist,limit_ensure
//@proof upsert kind=bounded bound=at_most_2_secondary_indexes unwind=4 covers=part_upsert,log_if_commit,log_if_abort,log_if_secondary_abort,tr_commit,tr_abort
//@proof update kind=bounded bound=at_most_2_secondary_indexes unwind=4 covers=part_update,log_if_commit,log_if_abort,log_if_secondary_abort,tr_commit,tr_abort
//@proof delete kind=bounded bound=at_most_2_secondary_indexes unwind=4 covers=part_delete,part_delete_by,log_if_commit,log_if_abort,log_if_secondary_abort,tr_commit,tr_abort
//@proof apply kind=bounded bound=at_most_2_secondary_indexes unwind=4 covers=part_apply,part_sync_sequence
//@flags -DVF_NO_REALLOC
//@rewrite (uint16_t columns;\s+uint8_t data\[)\] ==> \g<1>16]
//@assume rollback: indexes are used through their interface contract (a map from key to row; C14, C15); up to two secondary indexes
//@assume rollback: one operation from any consistent partition; a transaction is undone operation by operation in reverse order, each undo restoring the state its operation started from
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include "transaction/limit.h"
#include "transaction/record.h"
#include "transaction/write_log.h"
#ifdef VF_CBMC
#undef defer
#define defer(a, b) do { } while (0)
#endif
static int wal_count, wal_cmd;
static Row* wal_row;
static inline void vf_write_log_add(WriteLog* self, int cmd, Uuid* id, Row* row)
{
	(void)self; (void)id;
	wal_count++;
	wal_cmd = cmd;
	wal_row = row;
}
#define write_log_add vf_write_log_add
#include "part/part_op.c"
#undef write_log_add
#include "transaction/commit.c"
#include <vf_env.h>

/* rows: 0 and 1 are stored under primary keys 0 and 1, row 2 is the new one, which has key 0 (keys are
 * interchangeable) */
#define ROWS 3
#define SECONDARY 2
static struct { Row row; uint8_t pad[16]; } row_mem[ROWS];
#define rows(n) (row_mem[n].row)
static int  pk[ROWS], sk[SECONDARY][ROWS];
static int  freed[ROWS];
#define NUM(r) ((r) == &rows(0) ? 0 : (r) == &rows(1) ? 1 : 2)

/* an index is a map from its key to a row */
typedef struct { Index index; int* key; Row* slot[2]; Row* was[2]; } Map;
static Map map[1 + SECONDARY];
static int maps;
static IndexConfig config_[1 + SECONDARY];
typedef struct { Iterator it; Map* m; int key; } MapIt;
static MapIt its[2 + SECONDARY];
static int its_used;

static Row* map_replace_by(Index* i, Row* r)
{
	Map* m = (Map*)i;
	Row* prev = m->slot[m->key[NUM(r)]];
	m->slot[m->key[NUM(r)]] = r;
	return prev;
}
static Row* map_replace(Index* i, Row* r, Iterator* it)
{
	Map* m = (Map*)i; MapIt* mi = (MapIt*)it;
	VF_ENSURES(mi->m == m && mi->key == m->key[NUM(r)] && m->slot[mi->key], "rows are replaced under their own key");
	return map_replace_by(i, r);
}
static Row* map_delete_by(Index* i, Row* r)
{
	Map* m = (Map*)i;
	Row* prev = m->slot[m->key[NUM(r)]];
	m->slot[m->key[NUM(r)]] = NULL;
	return prev;
}
static Row* map_delete(Index* i, Iterator* it)
{
	Map* m = (Map*)i; MapIt* mi = (MapIt*)it;
	VF_ENSURES(mi->m == m && m->slot[mi->key], "an existing row is deleted");
	Row* prev = m->slot[mi->key];
	m->slot[mi->key] = NULL;
	return prev;
}
static bool map_upsert(Index* i, Row* r, Iterator* it)
{
	Map* m = (Map*)i; MapIt* mi = (MapIt*)it;
	mi->m = m;
	mi->key = m->key[NUM(r)];
	if (m->slot[mi->key])
		return true;
	m->slot[mi->key] = r;
	return false;
}
static bool it_open(Iterator* it, Row* r)
{
	MapIt* mi = (MapIt*)it;
	mi->key = mi->m->key[NUM(r)];
	return mi->m->slot[mi->key] != NULL;
}
static Row* it_at(Iterator* it)
{
	MapIt* mi = (MapIt*)it;
	return mi->m->slot[mi->key];
}
static Iterator* map_iterator(Index* i)
{
	MapIt* mi = &its[its_used++];
	mi->m = (Map*)i;
	mi->it.open = it_open;
	mi->it.at = it_at;
	mi->it.close = NULL;
	return &mi->it;
}
static Heap heap;
void heap_remove(Heap* h, void* p)
{
	VF_ENSURES(h == &heap, "rows are freed in the partition's storage");
	int n = NUM((Row*)p);
	VF_ENSURES(p == &rows(n), "only rows are freed");
	freed[n]++;
	for (int i = 0; i < 1 + SECONDARY; i++)
		VF_ENSURES(i >= maps || (map[i].slot[0] != (Row*)p && map[i].slot[1] != (Row*)p), "a row that is still indexed is never freed");
}
static Part part;
static PartArg arg;
static Uuid table;
static Sequence seq;
static Columns columns;
static char name[5] = "name";
static Tr tr;
static Limit limit;
static LogOp   mem_op[8];
static LogRow  mem_data[8];

static int secondary;
static bool fixed, has;
static void begin(bool logged_limit)
{
	vf_init();
	its_used = wal_count = 0;
	maps = 1 + secondary;
	for (int r = 0; r < ROWS; r++)
	{
		freed[r] = 0;
		rows(r).size_factor = 0;
		rows(r).columns = 1;
		rows(r).data[0] = 16;
		pk[r] = r < 2 ? r : 0;
		for (int i = 0; i < SECONDARY; i++)
			sk[i][r] = r < 2 ? vf_range(0, 1) : 0;
	}
	for (int i = 0; i < 1 + SECONDARY; i++)
	{
		Map* m = &map[i];
		m->key = i == 0 ? pk : sk[i - 1];
		m->slot[0] = m->slot[1] = NULL;
		m->index.iface.upsert = map_upsert;
		m->index.iface.replace_by = map_replace_by;
		m->index.iface.replace = map_replace;
		m->index.iface.delete_by = map_delete_by;
		m->index.iface.delete = map_delete;
		m->index.iface.iterator = map_iterator;
		m->index.iface_arg = &part;
		m->index.config = &config_[i];
		m->index.next = i + 1 < maps ? &map[i + 1].index : NULL;
		config_[i].keys.columns = &columns;
		config_[i].name.pos = name;
		config_[i].name.end = name + 4;
	}
	columns.identity = NULL;
	/* any consistent contents: a row is in all indexes or in none */
	for (int r = 0; r < 2; r++)
		if (r == 0 && fixed ? has : vf_bool())
			for (int i = 0; i < 1 + SECONDARY; i++)
				if (i < maps)
				{
					VF_REQUIRES(! map[i].slot[map[i].key[r]]);
					map[i].slot[map[i].key[r]] = &rows(r);
				}
	for (int i = 0; i < 1 + SECONDARY; i++)
	{
		map[i].was[0] = map[i].slot[0];
		map[i].was[1] = map[i].slot[1];
	}
	part.indexes = &map[0].index;
	part.heap = &heap;
	part.arg = &arg;
	arg.seq = &seq;
	arg.id_table = &table;
	arg.unlogged = vf_bool();
	tr_init(&tr);
	tr.log.op.start = tr.log.op.position = (uint8_t*)mem_op;
	tr.log.op.end = (uint8_t*)(mem_op + 8);
	tr.log.data.start = tr.log.data.position = (uint8_t*)mem_data;
	tr.log.data.end = (uint8_t*)(mem_data + 8);
	tr_begin(&tr);
	limit_init(&limit, logged_limit ? vf_range(1, 32) : 0);
	if (logged_limit || vf_bool())
		tr_set_limit(&tr, &limit);
}
static Row* old_at(int i) { return map[i].was[map[i].key[2]]; }
/* nothing has happened */
static bool new_freed;
static void is_aborted(void)
{
	for (int i = 0; i < 1 + SECONDARY; i++)
		VF_ENSURES(i >= maps || (map[i].slot[0] == map[i].was[0] && map[i].slot[1] == map[i].was[1]), "rollback: every index is as it was before");
	VF_ENSURES(freed[0] == 0 && freed[1] == 0, "rollback: rows that were stored before are still there");
	VF_ENSURES(freed[2] == new_freed, "rollback: rows of the transaction are released, once");
	VF_ENSURES(! tr_active(&tr) && tr.log.count == 0 && buf_empty(&tr.log.op) && buf_empty(&tr.log.data), "rollback: the transaction is over");
}
static bool may_abort;
static void on_error(void)
{
	VF_ENSURES(may_abort, "an operation fails only when it has to");
	tr_abort(&tr);
	is_aborted();
}
static void fails_if(bool must)
{
	may_abort = vf_may_throw = must;
	vf_on_throw = on_error;
}
static void committed(Row* stored, Row* replaced)
{
	/* the row of the key is stored in all indexes, or gone from all */
	for (int i = 0; i < 1 + SECONDARY; i++)
		for (int k = 0; k < 2; k++)
		{
			if (i >= maps)
				continue;
			Row* r = map[i].was[k];
			if (r && r == replaced)
				r = NULL;
			if (stored && map[i].key[NUM(stored)] == k)
				r = stored;
			VF_ENSURES(map[i].slot[k] == r, "commit: every index has the new version and all other rows");
		}
	for (int r = 0; r < 2; r++)
		VF_ENSURES(freed[r] == (replaced == &rows(r)), "commit: exactly the replaced version is released, once");
	VF_ENSURES(! tr_active(&tr) && tr.log.count == 0, "commit: the transaction is over");
}
static void logged(int cmd, Row* row)
{
	VF_ENSURES(wal_count == ! arg.unlogged, "one entry in the write-ahead log per change");
	VF_ENSURES(arg.unlogged || (wal_cmd == cmd && wal_row == row), "the log has the new version, or the deleted row");
}
static bool over_limit(void)
{
	return tr.limit && limit.log_size_limit && 16 >= limit.log_size_limit;
}
static void insert(void)
{
	begin(true);
	bool replace = vf_bool();
	bool conflict = false;
	for (int i = 0; i < 1 + SECONDARY; i++)
		if (i < maps)
		{
			conflict |= old_at(i) != NULL;
			/* replay: the same row in every index */
			if (replace)
				VF_REQUIRES(old_at(i) == old_at(0));
		}
	new_freed = true;
	fails_if((conflict && ! replace) || over_limit());
	part_insert(&part, &tr, replace, &rows(2));
	VF_ENSURES(! may_abort, "insert: a row with the same unique key, or a full transaction, is refused");
	logged(CMD_REPLACE, &rows(2));
	VF_REACH("insert");
	if (vf_bool())
	{
		tr_abort(&tr);
		is_aborted();
	} else
	{
		Row* replaced = old_at(0);
		tr_commit(&tr);
		committed(&rows(2), replaced);
		VF_ENSURES(freed[2] == 0, "commit: the new row stays");
	}
}
static void upsert_key(void)
{
	begin(true);
	bool exists = old_at(0) != NULL, conflict = false;
	for (int i = 1; i < 1 + SECONDARY; i++)
		if (i < maps)
			conflict |= old_at(i) != NULL;
	new_freed = true;
	fails_if(! exists && (conflict || over_limit()));
	MapIt it;
	bool found = part_upsert(&part, &tr, &it.it, &rows(2));
	VF_ENSURES(! may_abort, "upsert: a row with the same unique key in another index, or a full transaction, is refused");
	VF_ENSURES(found == exists, "upsert: tells whether the key was there");
	VF_ENSURES(it.m == &map[0] && it.key == pk[2], "upsert: the iterator is at the key");
	VF_REACH("upsert");
	if (exists)
	{
		VF_ENSURES(wal_count == 0 && tr.log.count == 0, "upsert: no change, nothing logged");
		VF_ENSURES(freed[2] == 1, "upsert: the unused row is released");
	} else
		logged(CMD_REPLACE, &rows(2));
	if (vf_bool())
	{
		tr_abort(&tr);
		is_aborted();
	} else
	{
		tr_commit(&tr);
		committed(exists ? NULL : &rows(2), NULL);
		VF_ENSURES(freed[2] == exists, "commit: the new row stays");
	}
}
static void upsert(void)
{
	fixed = true;
	has = false;
	if (vf_bool()) {
		has = true;
		upsert_key();
	} else
		upsert_key();
}
static void update(void)
{
	begin(true);
	/* the new version of a stored row, with the same keys */
	Row* prev = old_at(0);
	VF_REQUIRES(prev);
	for (int i = 1; i < 1 + SECONDARY; i++)
		if (i < maps)
			VF_REQUIRES(old_at(i) == prev);
	new_freed = true;
	fails_if(over_limit());
	MapIt it = { .m = &map[0], .key = pk[2] };
	part_update(&part, &tr, &it.it, &rows(2));
	VF_ENSURES(! may_abort, "update: a full transaction is refused");
	logged(CMD_REPLACE, &rows(2));
	VF_REACH("update");
	if (vf_bool())
	{
		tr_abort(&tr);
		is_aborted();
	} else
	{
		tr_commit(&tr);
		committed(&rows(2), prev);
		VF_ENSURES(freed[2] == 0, "commit: the new version stays");
	}
}
static void delete_(void)
{
	begin(true);
	Row* prev = old_at(0);
	new_freed = false;
	bool by_key = vf_bool();
	if (by_key)
	{
		fails_if(! prev || over_limit());
		part_delete_by(&part, &tr, &rows(2));
	}
	else
	{
		VF_REQUIRES(prev);
		MapIt it = { .m = &map[0], .key = pk[2] };
		it.it.at = it_at;
		fails_if(over_limit());
		part_delete(&part, &tr, &it.it);
	}
	VF_ENSURES(! may_abort, "delete: a missing row, or a full transaction, is refused");
	logged(CMD_DELETE, prev);
	VF_REACH("delete");
	if (vf_bool())
	{
		tr_abort(&tr);
		is_aborted();
	} else
	{
		tr_commit(&tr);
		committed(NULL, prev);
		VF_ENSURES(freed[2] == 0, "delete: the key is not a stored row");
	}
}
static void apply(void)
{
	begin(false);
	Row* prev = old_at(0);
	for (int i = 1; i < 1 + SECONDARY; i++)
		if (i < maps)
			VF_REQUIRES(old_at(i) == prev);
	bool delete = vf_bool();
	Row* r = part_apply(&part, &rows(2), delete);
	VF_REACH("apply");
	VF_ENSURES(r == prev, "apply: the previous version is returned");
	tr_commit(&tr);
	if (prev)
		freed[NUM(prev)]++;
	committed(delete ? NULL : &rows(2), prev);
}
VF_PROOF(insert)
{
	switch (vf_range(0, SECONDARY)) {
	case 0:  secondary = 0; insert(); break;
	case 1:  secondary = 1; insert(); break;
	default: secondary = 2; insert(); break;
	}
}
VF_PROOF(upsert)
{
	switch (vf_range(0, SECONDARY)) {
	case 0:  secondary = 0; upsert(); break;
	case 1:  secondary = 1; upsert(); break;
	default: secondary = 2; upsert(); break;
	}
}
VF_PROOF(update)
{
	switch (vf_range(0, SECONDARY)) {
	case 0:  secondary = 0; update(); break;
	case 1:  secondary = 1; update(); break;
	default: secondary = 2; update(); break;
	}
}
VF_PROOF(delete)
{
	switch (vf_range(0, SECONDARY)) {
	case 0:  secondary = 0; delete_(); break;
	case 1:  secondary = 1; delete_(); break;
	default: secondary = 2; delete_(); break;
	}
}
VF_PROOF(apply)
{
	switch (vf_range(0, SECONDARY)) {
	case 0:  secondary = 0; apply(); break;
	case 1:  secondary = 1; apply(); break;
	default: secondary = 2; apply(); break;
	}
}
