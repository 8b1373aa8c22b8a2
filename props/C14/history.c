//@proof history kind=native fuzz=2000 bound=seeded_random_histories_of_up_to_4000_operations_over_600_keys covers=index_hash_upsert,index_hash_replace_by,index_hash_replace,index_hash_delete_by,index_hash_delete,index_hash_iterator,index_hash_truncate
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_index.h>
#include <vf_env.h>
#include "index/index_hash.c"

/* the index interface as a whole against an ordinary map, over long histories
 * (growth from 256 slots, several rehashings, deleted slots) */
#define NKEYS 600
static Row* model[NKEYS];
static uint8_t mem[NKEYS][4][32];

static Row* mkrow(int key, int ver)
{
	Row* r = (Row*)mem[key][ver & 3];
	int f, size = row_measure(1, 8, &f);
	row_init(r, 1, f, size);
	uint8_t* p = row_data(r, 1);
	row_set(r, 0, p - (uint8_t*)r);
	*(int64_t*)p = (int64_t)key * 1000003;
	return r;
}

/* an iterator which was used before: opening it again starts afresh */
static void used(Iterator* it, uint64_t x)
{
	if (x & 1)
		iterator_open(it, x & 2 ? mkrow((x >> 20) % NKEYS, 2) : NULL);
	for (uint64_t i = 0; (x & 5) == 5 && i < (x >> 8) % 40 && iterator_has(it); i++)
		iterator_next(it);
}

VF_PROOF(history)
{
	vf_init();
	Columns cols;
	columns_init(&cols);
	Column* c = column_allocate();
	column_set_type(c, TYPE_INT, 8);
	columns_add(&cols, c);
	IndexConfig* config = index_config_allocate(&cols);
	config->type = INDEX_HASH;
	Key* key = key_allocate();
	key_set_ref(key, 0);
	keys_add(&config->keys, key);
	Index* index = index_hash_allocate(config, NULL);
	memset(model, 0, sizeof(model));
	int n = vf_range(1, 4000), span = vf_range(1, NKEYS), del = vf_range(1, 10);
	uint64_t x = vf_u64();
	int ver = 0;
	for (int i = 0; i < n; i++)
	{
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		int k = (x >> 33) % span, op = (x >> 20) % 12;
		Row* r = mkrow(k, 0);
		if (model[k] == r)
			r = mkrow(k, 1);
		ver++;
		if (op < del)
		{
			if (op & 1) {
				Row* ret = index_delete_by(index, r);
				VF_ENSURES(ret == model[k], "history: delete returns the stored row");
				model[k] = NULL;
			} else {
				Iterator* it = index_iterator(index);
				used(it, x >> 13);
				bool found = iterator_open(it, r);
				VF_ENSURES(found == (model[k] != NULL), "history: lookup");
				if (found) {
					VF_ENSURES(iterator_at(it) == model[k], "history: lookup row");
					VF_ENSURES(index_delete(index, it) == model[k], "history: positioned delete");
					model[k] = NULL;
				}
				iterator_close(it);
			}
		} else
		if (op & 1)
		{
			Row* ret = index_replace_by(index, r);
			VF_ENSURES(ret == model[k], "history: replace returns the previous row");
			model[k] = r;
		} else
		{
			Iterator* it = index_iterator(index);
			bool exists = index_upsert(index, r, it);
			VF_ENSURES(exists == (model[k] != NULL), "history: upsert reports an existing key");
			VF_ENSURES(iterator_at(it) == (model[k] ? model[k] : r), "history: upsert position");
			if (exists) {
				VF_ENSURES(index_replace(index, r, it) == model[k], "history: positioned replace");
				VF_ENSURES(iterator_at(it) == r, "history: the iterator is at the row it stored");
			}
			model[k] = r;
			iterator_close(it);
		}
		if (i % 500 == 0 || i == n - 1)
		{
			int have = 0, want = 0;
			for (int j = 0; j < NKEYS; j++)
				want += model[j] != NULL;
			Iterator* it = index_iterator(index);
			used(it, x >> 13);
			for (iterator_open(it, NULL); iterator_has(it); iterator_next(it))
			{
				int64_t v = *(int64_t*)row_at(iterator_at(it), 0);
				VF_ENSURES(model[v / 1000003] == iterator_at(it), "history: scan returns stored rows");
				have++;
				VF_ENSURES(have <= want, "history: scan returns no row twice");
			}
			iterator_close(it);
			VF_ENSURES(have == want, "history: scan returns every row");
		}
	}
	VF_REACH("history");
	index_truncate(index);
	Iterator* it = index_iterator(index);
	iterator_open(it, NULL);
	VF_ENSURES(! iterator_has(it), "truncate removes every row");
	iterator_close(it);
	index_free(index);
}
