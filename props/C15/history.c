//@proof history kind=native fuzz=2000 bound=seeded_random_histories_of_up_to_4000_operations_over_600_keys covers=index_tree_upsert,index_tree_replace_by,index_tree_replace,index_tree_delete_by,index_tree_delete,index_tree_iterator,index_tree_truncate
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_index.h>
#include <vf_env.h>
#include "lib/rbtree.c"
#include "index/tree.c"
#include "index/index_tree.c"

/* the index interface as a whole against an ordered map, over long histories
 * (pages split and disappear; integer and string keys) */
#define NKEYS 600
static Row* model[NKEYS];
static uint8_t mem[NKEYS][4][32];

static bool strkey;
static int  order[NKEYS], rank_[NKEYS];

static int keystr(char* to, int key)
{
	/* strings whose byte differences vary widely, with common prefixes */
	uint64_t h = key * 0x9E3779B97F4A7C15ull;
	int n = 1 + key % 4;
	for (int i = 0; i < n; i++, h >>= 8)
		to[i] = h & 0xff;
	int len = n;
	to[len++] = key & 0xff;
	to[len++] = key >> 8;
	return len;
}
static Row* mkrow(int key, int ver)
{
	Row* r = (Row*)mem[key][ver & 3];
	uint8_t data[32];
	int size;
	if (strkey) {
		char k[16];
		int len = keystr(k, key);
		uint8_t* p = data;
		Str s;
		str_set(&s, k, len);
		json_write_string(&p, &s);
		size = p - data;
	} else {
		*(int64_t*)data = ((int64_t)key - 300) * 1000003;
		size = 8;
	}
	int f, total = row_measure(1, size, &f);
	row_init(r, 1, f, total);
	uint8_t* p = row_data(r, 1);
	row_set(r, 0, p - (uint8_t*)r);
	memcpy(p, data, size);
	return r;
}
static int rowkey(Row* r)
{
	return ((uint8_t*)r - (uint8_t*)mem) / sizeof(mem[0]);
}
static int bycmp(const void* a, const void* b)
{
	int x = *(const int*)a, y = *(const int*)b;
	if (! strkey)
		return x - y;
	char p[16], q[16];
	int n = keystr(p, x), m = keystr(q, y);
	int rc = memcmp(p, q, n < m ? n : m);
	return rc ? rc : n - m;
}

/* an iterator which was used before: opening it again starts afresh */
static void used(Iterator* it, uint64_t x)
{
	if (x & 1)
		iterator_open(it, x & 2 ? mkrow((x >> 20) % NKEYS, 2) : NULL);
	for (uint64_t i = 0; (x & 5) == 5 && i < (x >> 8) % 40 && iterator_has(it); i++)
		iterator_next(it);
}

VF_PROOF(history)
{
	vf_init();
	Columns cols;
	columns_init(&cols);
	Column* c = column_allocate();
	strkey = vf_bool();
	if (strkey)
		column_set_type(c, TYPE_STRING, 0);
	else
		column_set_type(c, TYPE_INT, 8);
	columns_add(&cols, c);
	IndexConfig* config = index_config_allocate(&cols);
	config->type = INDEX_TREE;
	Key* key = key_allocate();
	key_set_ref(key, 0);
	keys_add(&config->keys, key);
	Index* index = index_tree_allocate(config, NULL);
	memset(model, 0, sizeof(model));
	for (int i = 0; i < NKEYS; i++)
		order[i] = i;
	qsort(order, NKEYS, sizeof(int), bycmp);
	for (int i = 0; i < NKEYS; i++)
		rank_[order[i]] = i;
	int n = vf_range(1, 4000), span = vf_range(1, NKEYS), del = vf_range(1, 10);
	uint64_t x = vf_u64();
	int ver = 0;
	for (int i = 0; i < n; i++)
	{
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		int k = (x >> 33) % span, op = (x >> 20) % 12;
		Row* r = mkrow(k, 0);
		if (model[k] == r)
			r = mkrow(k, 1);
		ver++;
		if (op < del)
		{
			if (op & 1) {
				Row* ret = index_delete_by(index, r);
				VF_ENSURES(ret == model[k], "history: delete returns the stored row");
				model[k] = NULL;
			} else {
				Iterator* it = index_iterator(index);
				used(it, x >> 13);
				bool found = iterator_open(it, r);
				VF_ENSURES(found == (model[k] != NULL), "history: lookup");
				if (found) {
					VF_ENSURES(iterator_at(it) == model[k], "history: lookup row");
					VF_ENSURES(index_delete(index, it) == model[k], "history: positioned delete");
					model[k] = NULL;
					if (((x >> 22) & 15) == 0)
					{
						/* the scan goes on with the next key */
						int next = -1;
						for (int j = 0; j < NKEYS; j++)
							if (model[j] && rank_[j] > rank_[k] && (next < 0 || rank_[j] < rank_[next]))
								next = j;
						iterator_next(it);
						VF_ENSURES(iterator_at(it) == (next < 0 ? NULL : model[next]), "history: the scan continues with the next key");
					}
				}
				iterator_close(it);
			}
		} else
		if (op & 1)
		{
			Row* ret = index_replace_by(index, r);
			VF_ENSURES(ret == model[k], "history: replace returns the previous row");
			model[k] = r;
		} else
		{
			Iterator* it = index_iterator(index);
			bool exists = index_upsert(index, r, it);
			VF_ENSURES(exists == (model[k] != NULL), "history: upsert reports an existing key");
			VF_ENSURES(iterator_at(it) == (model[k] ? model[k] : r), "history: upsert position");
			if (exists) {
				VF_ENSURES(index_replace(index, r, it) == model[k], "history: positioned replace");
				VF_ENSURES(iterator_at(it) == r, "history: the iterator is at the row it stored");
					if (((x >> 22) & 15) == 0)
					{
						/* the scan goes on with the next key */
						int next = -1;
						for (int j = 0; j < NKEYS; j++)
							if (model[j] && rank_[j] > rank_[k] && (next < 0 || rank_[j] < rank_[next]))
								next = j;
						iterator_next(it);
						VF_ENSURES(iterator_at(it) == (next < 0 ? NULL : model[next]), "history: the scan continues with the next key");
					}
			}
			model[k] = r;
			iterator_close(it);
		}
		if (i % 500 == 0 || i == n - 1)
		{
			int have = 0, want = 0;
			for (int j = 0; j < NKEYS; j++)
				want += model[j] != NULL;
			Iterator* it = index_iterator(index);
			int last = -1;
			/* from the start, or from a key (range scan) */
			int from = i % 1000 == 0 ? -1 : (int)(x >> 40) % NKEYS;
			want = 0;
			for (int j = 0; j < NKEYS; j++)
				want += model[j] != NULL && (from < 0 || rank_[j] >= rank_[from]);
			used(it, x >> 13);
			for (iterator_open(it, from < 0 ? NULL : mkrow(from, 2)); iterator_has(it); iterator_next(it))
			{
				Row* r = iterator_at(it);
				int v = rowkey(r);
				VF_ENSURES(model[v] == r, "history: scan returns stored rows");
				VF_ENSURES(rank_[v] > last, "history: scan returns rows in key order");
				last = rank_[v];
				VF_ENSURES(from < 0 || rank_[v] >= rank_[from], "history: range scan returns no row before the bound");
				have++;
			}
			iterator_close(it);
			VF_ENSURES(have == want, "history: scan returns every row");
		}
	}
	VF_REACH("history");
	index_truncate(index);
	Iterator* it = index_iterator(index);
	iterator_open(it, NULL);
	VF_ENSURES(! iterator_has(it), "truncate removes every row");
	iterator_close(it);
	index_free(index);
}
