//@proof history kind=native fuzz=6000 ttimeout=400 bound=histories_of_up_to_60_transactions_on_a_real_partition_with_up_to_4_indexes covers=part_insert,part_upsert,part_update,part_delete,part_delete_by,tr_commit,tr_abort,tr_commit_list,tr_abort_list,track_sync,heap_add,heap_remove
//@proof recover kind=native fuzz=1500 bound=partitions_of_up_to_64_rows covers=part_apply,part_insert
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <vf_env.h>
#include "lib/rbtree.c"
#include "index/tree.c"
#include "index/index_tree.c"
#include "index/index_hash.c"
#include "os/vfs.c"
#include "heap/heap.c"
#include "part/part_op.c"
#include "transaction/commit.c"

#define KEYS 12
#define IDX  4
#define COLS (IDX + 1)
typedef struct { bool set; int k[IDX]; int64_t value; } Ver;      /* one row */
typedef struct { Ver row[KEYS]; } Model;                          /* by primary key */
static Model    now, committed, at[64];
static uint64_t at_id[64];
static int      prepared;
static Part     part;
static PartArg  part_arg;
static Sequence seq;
static Uuid     id_table;
static Columns  cols;
static IndexConfig* configs[IDX];
static Column*  column[COLS];
static int      indexes;

static bool running;
static void setup(void)
{
	vf_init();
	running = false;
	static Runtime rt;
	am_runtime = &rt;
	rt.config.wal_crc.type = OPT_BOOL;
	rt.config.wal_crc.integer = false;
	if (! column[0])
	{
		columns_init(&cols);
		for (int i = 0; i < COLS; i++)
		{
			column[i] = column_allocate();
			column_set_type(column[i], TYPE_INT, 8);
			columns_add(&cols, column[i]);
		}
	}
	memset(&part, 0, sizeof(part));
	memset(&now, 0, sizeof(now));
	committed = now;
	prepared = 0;
	sequence_init(&seq);
	part.heap = heap_allocate(false);
	part.arg = &part_arg;
	part_arg.seq = &seq;
	part_arg.id_table = &id_table;
	part_arg.unlogged = vf_bool();
	cols.identity = NULL;
	track_init(&part.track);
	indexes = vf_range(1, IDX);
	Index** link = &part.indexes;
	for (int i = 0; i < indexes; i++)
	{
		static char name[] = "index";
		IndexConfig* c = configs[i] = index_config_allocate(&cols);
		Str s;
		str_set(&s, name, 5);
		index_config_set_name(c, &s);
		c->type = vf_bool() ? INDEX_TREE : INDEX_HASH;
		Key* key = key_allocate();
		key_set_ref(key, i);
		keys_add(&c->keys, key);
		*link = c->type == INDEX_TREE ? index_tree_allocate(c, &part) : index_hash_allocate(c, &part);
		link = &(*link)->next;
		part.indexes_count++;
	}
}
static void teardown(void)
{
	for (Index* i = part.indexes; i; )
	{
		Index* next = i->next;
		index_free(i);
		i = next;
	}
	tr_cache_free(&part.track.cache);
	heap_free(part.heap);
}
static Row* mkrow(Ver* v)
{
	Row* r = row_allocate(part.heap, COLS, 8 * COLS);
	uint8_t* p = row_data(r, COLS);
	for (int i = 0; i < COLS; i++)
	{
		row_set(r, i, p - (uint8_t*)r);
		*(int64_t*)p = i < IDX ? v->k[i] : v->value;
		p += 8;
	}
	return r;
}
static int64_t col(Row* r, int i) { return *(int64_t*)row_column(r, column[i]); }
static bool same(Row* r, Ver* v)
{
	for (int i = 0; i < IDX; i++)
		if (col(r, i) != v->k[i])
			return false;
	return col(r, IDX) == v->value;
}
static void check(void)
{
	int total = 0;
	for (int k = 0; k < KEYS; k++)
		total += now.row[k].set;
	Row* primary[KEYS] = {0};
	for (Index* i = part.indexes; i; i = i->next)
	{
		int seen = 0;
		Iterator* it = index_iterator(i);
		iterator_open(it, NULL);
		for (; iterator_has(it); iterator_next(it))
		{
			Row* r = iterator_at(it);
			int k = col(r, 0);
			VF_ENSURES(k >= 0 && k < KEYS && now.row[k].set && same(r, &now.row[k]), "every index has exactly the current version of every row");
			VF_ENSURES(! heap_chunk_of(r)->is_free, "a row that is still indexed is never freed");
			if (i == part.indexes)
			{
				VF_ENSURES(! primary[k], "a row is in an index once");
				primary[k] = r;
			} else
				VF_ENSURES(primary[k] == r, "all indexes have the same version of a row");
			seen++;
		}
		iterator_close(it);
		VF_ENSURES(seen == total, "every row is in every index");
	}
	if (! prepared && ! running)
		VF_ENSURES((int)part.heap->header->count_used == total, "storage is used by current rows only once all transactions are over");
}
static int owner(int idx, int key)
{
	for (int k = 0; k < KEYS; k++)
		if (now.row[k].set && now.row[k].k[idx] == key)
			return k;
	return -1;
}
static Ver random_ver(int k)
{
	Ver v = { .set = true, .value = vf_i64() };
	v.k[0] = k;
	for (int i = 1; i < IDX; i++)
		v.k[i] = vf_range(0, 2 * KEYS - 1);
	return v;
}
/* one operation; false if it has to fail */
static bool operation(Tr* tr)
{
	int k = vf_range(0, KEYS - 1);
	Ver v = random_ver(k);
	bool conflict = false;
	for (int i = 1; i < indexes; i++)
		conflict |= owner(i, v.k[i]) != -1;
	bool exists = now.row[k].set;
	Index* primary = part.indexes;
	switch (vf_range(0, 4)) {
	case 0:
	{
		if (vf_bool() && exists)
		{
			/* replay of a new version */
			memcpy(v.k, now.row[k].k, sizeof(v.k));
			part_insert(&part, tr, true, mkrow(&v));
			now.row[k] = v;
			break;
		}
		if (exists || conflict)
		{
			part_insert(&part, tr, false, mkrow(&v));
			return false;
		}
		part_insert(&part, tr, vf_bool(), mkrow(&v));
		now.row[k] = v;
		break;
	}
	case 1:
	{
		if (exists && vf_bool())
			conflict = false, memcpy(v.k, now.row[k].k, sizeof(v.k));
		Iterator* it = index_iterator(primary);
		bool found = part_upsert(&part, tr, it, mkrow(&v));
		if (! exists && conflict)
			return false;
		VF_ENSURES(found == exists, "upsert tells whether the key was there");
		VF_ENSURES(iterator_has(it) && same(iterator_at(it), found ? &now.row[k] : &v), "upsert: the iterator is at the row of the key");
		if (found)
		{
			memcpy(v.k, now.row[k].k, sizeof(v.k));
			part_update(&part, tr, it, mkrow(&v));
		}
		now.row[k] = v;
		iterator_close(it);
		break;
	}
	case 2:
	case 3:
	{
		/* update or delete through a scan of any index */
		if (! exists)
			break;
		bool update = vf_bool();
		Iterator* it = index_iterator(primary);
		Row* key = mkrow(&now.row[k]);
		VF_ENSURES(iterator_open(it, key), "a stored row is found");
		row_free(part.heap, key);
		if (update)
		{
			memcpy(v.k, now.row[k].k, sizeof(v.k));
			part_update(&part, tr, it, mkrow(&v));
			now.row[k] = v;
		} else
		{
			part_delete(&part, tr, it);
			now.row[k].set = false;
		}
		iterator_close(it);
		break;
	}
	default:
	{
		Row* key = mkrow(exists ? &now.row[k] : &v);
		bool failed = error_catch( part_delete_by(&part, tr, key) );
		row_free(part.heap, key);
		if (! exists)
			VF_ENSURES(failed, "a missing row cannot be deleted");
		if (failed)
			rethrow();
		now.row[k].set = false;
		break;
	}
	}
	return true;
}
/* replaying what the transaction hands to the write-ahead log */
static void check_log(Tr* tr, Model* before)
{
	WriteLog* w = &tr->log.write_log;
	if (part_arg.unlogged)
	{
		VF_ENSURES(write_log_empty(w) && ! tr_persists(tr), "changes of unlogged tables are not logged");
		return;
	}
	Model m = *before;
	struct iovec* v = iov_pointer(&w->iov);
	int n = 0;
	for (uint8_t* p = w->meta.start; p < w->meta.position; p += sizeof(RecordCmd))
	{
		RecordCmd* cmd = (RecordCmd*)p;
		VF_ENSURES(uuid_is(&cmd->id, &id_table), "logged changes name their table");
		for (uint32_t size = 0; size < cmd->size; size += v[n++].iov_len)
		{
			VF_ENSURES(n < w->iov.iov_count, "every logged change has its row");
			Row* r = v[n].iov_base;
			int k = col(r, 0);
			if (cmd->cmd == CMD_DELETE)
			{
				VF_ENSURES(m.row[k].set, "a logged delete is of a row that is there");
				m.row[k].set = false;
				continue;
			}
			VF_ENSURES(cmd->cmd == CMD_REPLACE, "a logged change is a replace or a delete");
			m.row[k].set = true;
			for (int i = 0; i < IDX; i++)
				m.row[k].k[i] = col(r, i);
			m.row[k].value = col(r, IDX);
		}
	}
	VF_ENSURES(n == w->iov.iov_count, "every logged row belongs to a change");
	for (int k = 0; k < KEYS; k++)
		VF_ENSURES(m.row[k].set == now.row[k].set && (! m.row[k].set || (memcmp(m.row[k].k, now.row[k].k, sizeof(now.row[k].k)) == 0 && m.row[k].value == now.row[k].value)), "replaying the log of a transaction gives its result");
}
static void abort_all(void)
{
	Consensus c = { .commit = part.track.consensus_pod.commit, .abort = at_id[prepared - 1] };
	track_sync(&part.track, &c);
	prepared = 0;
	now = committed;
	VF_ENSURES(part.track.prepared.list_count == 0 && list_empty(&part.track.prepared.list), "aborted transactions are over");
}
VF_PROOF(history)
{
	setup();
	Track* track = &part.track;
	int n = vf_range(1, 60);
	for (int t = 0; t < n; t++)
	{
		Limit limit;
		limit_init(&limit, vf_range(0, 9) ? 0 : vf_range(1, 400));
		Model before = now;
		Tr* tr = tr_create(&track->cache);
		tr_begin(tr);
		tr_set_id(tr, track->seq++);
		tr_set_limit(tr, &limit);
		tr_list_add(&track->prepared, tr);
		bool bad = false, ok = true;
		running = true;
		int ops = vf_range(0, 6);
		for (int i = 0; i < ops && ! bad && ok; i++)
		{
			bad = error_catch( ok = operation(tr) );
			if (bad)
				ok = false;
			else
			if (! ok)
				VF_ENSURES(false, "an operation that violates a unique key, or misses its row, is refused");
			else
				check();
		}
		running = false;
		if (! bad)
			check_log(tr, &before);
		int what = vf_range(0, 9);
		at_id[prepared] = tr->id;
		at[prepared++] = now;
		if (bad || what == 0)
		{
			if (vf_bool())
			{
				/* undo this one only */
				prepared--;
				list_unlink(&tr->link);
				track->prepared.list_count--;
				tr_abort(tr);
				VF_ENSURES(tr_aborted(tr) && ! tr_active(tr), "an aborted transaction is over");
				tr_cache_push(&track->cache, tr);
				now = before;
			} else
				abort_all();
			check();
			VF_REACH("rolled back");
		} else
		if (what == 1)
			abort_all();
		else
		if (what <= 4)
		{
			/* commit the oldest ones */
			int count = vf_range(1, prepared);
			Consensus c = { .commit = at_id[count - 1], .abort = track->consensus_pod.abort };
			track_sync(track, &c);
			committed = at[count - 1];
			prepared -= count;
			memmove(at, at + count, prepared * sizeof(at[0]));
			memmove(at_id, at_id + count, prepared * sizeof(at_id[0]));
			VF_ENSURES(track->prepared.list_count == prepared, "only the committed transactions are over");
			VF_REACH("committed");
		}
		check();
	}
	if (prepared)
		abort_all();
	check();
	teardown();
}
/* loading a partition: rows of the storage, then replayed changes */
VF_PROOF(recover)
{
	setup();
	bool identity = vf_bool();
	if (identity)
		cols.identity = column[IDX];
	int64_t max = -1;
	int n = vf_range(0, 64);
	for (int i = 0; i < n; i++)
	{
		int k = vf_range(0, KEYS - 1);
		Ver v = random_ver(k);
		if (now.row[k].set)
			memcpy(v.k, now.row[k].k, sizeof(v.k));
		else
			for (int j = 1; j < IDX; j++)
				v.k[j] = k;
		v.value = vf_srange(-1000, 1ll << vf_range(10, 40));
		if (identity && v.value > max)
			max = v.value;
		Row* row = mkrow(&v);
		if (vf_bool())
		{
			/* stored row, or newer version of it */
			Row* prev = part_apply(&part, row, false);
			VF_ENSURES((prev != NULL) == now.row[k].set, "apply returns the version it replaced");
			if (prev)
				row_free(part.heap, prev);
		} else
		{
			Tr* tr = tr_create(&part.track.cache);
			tr_begin(tr);
			part_insert(&part, tr, true, row);
			tr_commit(tr);
			tr_cache_push(&part.track.cache, tr);
		}
		now.row[k] = v;
		check();
		if (vf_range(0, 3) == 0 && now.row[k].set)
		{
			Row* key = mkrow(&now.row[k]);
			Row* prev = part_apply(&part, key, true);
			VF_ENSURES(prev && same(prev, &now.row[k]), "apply returns the version it removed");
			row_free(part.heap, key);
			row_free(part.heap, prev);
			now.row[k].set = false;
			check();
		}
	}
	VF_REACH("recovered");
	if (identity)
		VF_ENSURES((int64_t)sequence_get(&seq) > max && sequence_get(&seq) <= (uint64_t)(max < 0 ? 0 : max) + 1, "the next identity value is above every recovered one");
	teardown();
}
