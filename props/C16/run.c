//@proof tree_partitions kind=native fuzz=6000 bound=1_to_6_tree_partitions_of_up_to_400_rows covers=index_tree_iterator_merge,index_tree_merge_open,index_tree_merge_next
//@proof hash_partitions kind=native fuzz=3000 bound=1_to_6_hash_partitions_of_up_to_400_rows covers=index_hash_iterator_merge,index_hash_merge_open,index_hash_merge_next
//@proof branches kind=native fuzz=6000 bound=1_to_6_branches_of_up_to_40_rows covers=merge_iterator_add,merge_iterator_open,merge_iterator_next
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_index.h>
#include "object/merge_iterator.h"
#include <vf_env.h>
#include "lib/rbtree.c"
#include "index/tree.c"
#include "index/index_tree.c"
#include "index/index_hash.c"

#define NKEYS 400
#define PARTS 6
static uint8_t mem[PARTS][NKEYS][24];
static bool    stored[PARTS][NKEYS];

static int64_t keyof(int k) { return ((int64_t)k - NKEYS / 2) * 1000000007ll; }
static Row* mkrow(int part, int k)
{
	Row* r = (Row*)mem[part][k];
	int f, total = row_measure(1, 8, &f);
	row_init(r, 1, f, total);
	uint8_t* p = row_data(r, 1);
	row_set(r, 0, p - (uint8_t*)r);
	*(int64_t*)p = keyof(k);
	return r;
}
static int rowkey(Row* r)  { return (((uint8_t*)r - (uint8_t*)mem) / 24) % NKEYS; }
static int rowpart(Row* r) { return (((uint8_t*)r - (uint8_t*)mem) / 24) / NKEYS; }

static IndexConfig* config_make(int type)
{
	static Columns cols;
	columns_init(&cols);
	Column* c = column_allocate();
	column_set_type(c, TYPE_INT, 8);
	columns_add(&cols, c);
	IndexConfig* config = index_config_allocate(&cols);
	config->type = type;
	Key* key = key_allocate();
	key_set_ref(key, 0);
	keys_add(&config->keys, key);
	return config;
}
static void partitions(int type)
{
	vf_init();
	IndexConfig* config = config_make(type);
	int parts = vf_range(1, PARTS), fill = vf_range(0, 100), span = vf_range(1, NKEYS);
	bool shared = type == INDEX_TREE && vf_bool();
	Index* index[PARTS];
	memset(stored, 0, sizeof(stored));
	uint64_t x = vf_u64();
	Iterator* it = NULL;
	int total = 0;
	for (int p = 0; p < parts; p++)
	{
		index[p] = type == INDEX_TREE ? index_tree_allocate(config, NULL) : index_hash_allocate(config, NULL);
		bool empty = vf_range(0, 3) == 0;
		for (int n = 0; n < span; n++)
		{
			x = x * 6364136223846793005ull + 1442695040888963407ull;
			int k = (n * 37) % span;
			if (stored[p][k])
				continue;
			bool mine = shared || (x >> 33) % parts == (unsigned)p;
			for (int q = 0; q < p && ! shared; q++)
				if (stored[q][k])
					mine = false;
			if (empty || ! mine || (int)((x >> 40) % 100) >= fill)
				continue;
			stored[p][k] = true;
			total++;
			index_replace_by(index[p], mkrow(p, k));
		}
		it = index_iterator_merge(index[p], it);
	}
	int from = type == INDEX_TREE && vf_bool() ? (int)vf_range(0, NKEYS - 1) : -1;
	static uint8_t keymem[24];
	Row* key = NULL;
	if (from >= 0)
	{
		memcpy(keymem, mkrow(0, from), 24);
		key = (Row*)keymem;
	}
	bool match = iterator_open(it, key);
	bool want_match = false;
	for (int p = 0; p < parts; p++)
		for (int k = 0; k < NKEYS; k++)
		{
			want_match |= from >= 0 && k == from && stored[p][k];
			if (stored[p][k] && k < from)
				stored[p][k] = false, total--;
		}
	VF_ENSURES(match == want_match, "merge: open reports the exact key");
	int last = -1, seen = 0;
	for (; iterator_has(it); iterator_next(it))
	{
		Row* r = iterator_at(it);
		int k = rowkey(r), p = rowpart(r);
		VF_ENSURES(stored[p][k], "merge: every row once, only rows of the partitions in range");
		stored[p][k] = false;
		if (type == INDEX_TREE)
			VF_ENSURES(k >= last && (shared || k > last), "merge: rows of all partitions come in key order");
		last = k;
		seen++;
	}
	VF_ENSURES(iterator_at(it) == NULL, "merge: no row after the end");
	iterator_next(it);
	VF_ENSURES(! iterator_has(it), "merge: the end stays the end");
	VF_ENSURES(seen == total, "merge: no row is skipped");
	VF_REACH("partitions");
	iterator_close(it);
	for (int p = 0; p < parts; p++)
		index_free(index[p]);
}
VF_PROOF(tree_partitions) { partitions(INDEX_TREE); }
VF_PROOF(hash_partitions) { partitions(INDEX_HASH); }

typedef struct { Iterator it; int part, pos; } ArrayIt;
static int64_t arr[PARTS][41];
static bool arr_has(Iterator* i)  { ArrayIt* a = (ArrayIt*)i; return arr[a->part][a->pos] >= 0; }
static Row* arr_at(Iterator* i)   { ArrayIt* a = (ArrayIt*)i; return arr_has(i) ? (Row*)mem[a->part][arr[a->part][a->pos]] : NULL; }
static void arr_next(Iterator* i) { ArrayIt* a = (ArrayIt*)i; if (arr_has(i)) a->pos++; }

VF_PROOF(branches)
{
	vf_init();
	IndexConfig* config = config_make(INDEX_TREE);
	int parts = vf_range(0, PARTS), span = vf_range(1, 40), fill = vf_range(0, 100);
	ArrayIt its[PARTS];
	MergeIterator* m = merge_iterator_allocate(false);
	uint64_t x = vf_u64();
	for (int p = 0; p < parts; p++)
	{
		int n = 0;
		for (int k = 0; k < span; k++)
		{
			x = x * 6364136223846793005ull + 1442695040888963407ull;
			if ((int)((x >> 40) % 100) >= fill)
				continue;
			arr[p][n++] = k;
			mkrow(p, k);
		}
		arr[p][n] = -1;
		its[p] = (ArrayIt){ .it = { .has = arr_has, .at = arr_at, .next = arr_next }, .part = p };
		merge_iterator_add(m, &its[p].it);
	}
	merge_iterator_open(m, &config->keys);
	for (int k = 0; k < span; k++)
	{
		int owner = -1;
		for (int p = parts - 1; p >= 0; p--)
			for (int i = 0; arr[p][i] >= 0; i++)
				if (arr[p][i] == k)
					owner = p;
		if (owner < 0)
			continue;
		VF_ENSURES(iterator_has(&m->it), "branches: no key is skipped");
		Row* r = iterator_at(&m->it);
		VF_ENSURES(rowkey(r) == k && rowpart(r) == owner, "branches: each key once, in order, from the newest branch that has it");
		iterator_next(&m->it);
	}
	VF_ENSURES(! iterator_has(&m->it) && ! iterator_at(&m->it), "branches: nothing else");
	VF_REACH("branches");
	iterator_close(&m->it);
}
