ROWENV = r'''
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_index.h>
#include "env.h"
#include "lib/rbtree.c"
#include "index/tree.c"
#include "index/index_tree.c"
#include "index/index_hash.c"
static Columns cols;
static IndexConfig* make(int type, int ktype, int ksize)
{
	columns_init(&cols);
	Column* c = column_allocate();
	column_set_type(c, ktype, ksize);
	columns_add(&cols, c);
	IndexConfig* config = index_config_allocate(&cols);
	config->type = type;
	Key* key = key_allocate();
	key_set_ref(key, 0);
	keys_add(&config->keys, key);
	return config;
}
static Row* mk(const void* data, int size)
{
	int f, total = row_measure(1, size, &f);
	Row* r = malloc(total);
	row_init(r, 1, f, total);
	uint8_t* p = row_data(r, 1);
	row_set(r, 0, p - (uint8_t*)r);
	memcpy(p, data, size);
	return r;
}
static Row* mk64(int64_t k) { return mk(&k, 8); }
static Row* mk32(int32_t k) { return mk(&k, 4); }
static int64_t val(Row* r) { return *(int64_t*)row_at(r, 0); }
'''
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, libs=''):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, libs=libs))

seed('row_data_shift', 'C12', [('amelie/db/row/row.h',
 'return self->data + ((1 + columns) * (self->size_factor + 1));',
 'return self->data + ((1 + columns) << self->size_factor);')], ROWENV + r'''
int main(void)
{
	demo_init();
	int sizes[] = { 10, 250, 251, 252, 300, 65000, 65525, 65530, 70000, 200000 };
	for (int i = 0; i < 10; i++)
	{
		int f, total = row_measure(3, sizes[i], &f);
		Row* r = malloc(total);
		row_init(r, 3, f, total);
		uint8_t* p = row_data(r, 3);
		CHECK(p + sizes[i] == (uint8_t*)r + total);
	}
	return 0;
}
''', 'rows larger than 64K (four byte offsets)', 'the payload of a wide row is placed past its announced size')

seed('compare_int32_diff', 'C13', [('amelie/db/row/compare.h',
 '''			rc = compare_int32(*(int32_t*)row_column(a, column),
			                   *(int32_t*)row_column(b, column));''',
 '''			rc = *(int32_t*)row_column(a, column) -
			     *(int32_t*)row_column(b, column);''')], ROWENV + r'''
int main(void)
{
	demo_init();
	IndexConfig* c = make(INDEX_TREE, TYPE_INT, 4);
	int32_t v[] = { INT32_MIN, -2000000000, -1, 0, 1, 2000000000, INT32_MAX };
	for (int i = 0; i < 7; i++)
		for (int j = 0; j < 7; j++)
		{
			int rc = compare(&c->keys, mk32(v[i]), mk32(v[j]));
			CHECK((rc < 0) == (i < j) && (rc > 0) == (i > j));
		}
	return 0;
}
''', '32-bit keys whose difference does not fit 32 bits', 'order of integer keys is not total')

seed('tree_delete_tail', 'C15', [('amelie/db/index/tree.c',
 '''	int size = page->keys_count - pos->page_pos;
	if (size > 0)
	{
		tree_move(page, pos->page_pos, page, pos->page_pos + 1, size);
		return;
	}
''', '''	int size = page->keys_count - pos->page_pos;
	if (size >= 0)
	{
		tree_move(page, pos->page_pos, page, pos->page_pos + 1, size);
		return;
	}
''')], ROWENV + r'''
int main(void)
{
	demo_init();
	IndexConfig* c = make(INDEX_TREE, TYPE_INT, 8);
	Index* index = index_tree_allocate(c, NULL);
	int n = 3000;
	for (int i = 0; i < n; i++)
		CHECK(index_replace_by(index, mk64(i)) == NULL);
	/* scan and delete every third row through the iterator */
	Iterator* it = index_iterator(index);
	iterator_open(it, NULL);
	int seen = 0;
	while (iterator_has(it))
	{
		int64_t k = val(iterator_at(it));
		CHECK(k == seen);
		seen++;
		if (k % 3 == 0)
			index_delete(index, it);
		iterator_next(it);
	}
	CHECK(seen == n);
	return 0;
}
''', 'a scan that deletes the last row of a page and continues', 'the scan visits a slot behind the end of the page: rows are skipped or returned again')

seed('hash_get_prev', 'C14', [('amelie/db/index/hash.h',
 '''		prev = hash_store_delete(self->current, key);
		if (! prev)
			prev = hash_store_delete(self->prev, key);
		hash_rehash(self);
	} else {''', '''		hash_rehash(self);
		prev = hash_store_delete(self->current, key);
		if (! prev && self->prev && row_hash(key, self->keys) % self->prev->size >= self->rehashing_pos)
			prev = hash_store_delete(self->prev, key);
	} else {''')], ROWENV + r'''
int main(void)
{
	demo_init();
	IndexConfig* c = make(INDEX_HASH, TYPE_INT, 8);
	for (int round = 0; round < 40; round++)
	{
		Index* index = index_hash_allocate(c, NULL);
		int n = 64 + round * 41;
		for (int i = 0; i < n; i++)
			CHECK(index_replace_by(index, mk64(i + round * 100000)) == NULL);
		for (int i = n - 1; i >= 0; i--)
		{
			Row* r = index_delete_by(index, mk64(i + round * 100000));
			CHECK(r && val(r) == i + round * 100000);
		}
	}
	return 0;
}
''', 'delete during incremental rehashing of a key whose collision chain wraps around the end of the old table, or crosses the rehashing position', 'the row stays in the index although it was deleted')

seed('merge_three_way', 'C16', [('amelie/db/object/merge_iterator.h',
 '''			for (auto i = 0; i < self->list_count; i++)
				list[i].advance = false;''',
 '''			if (pos > 0)
				list[pos - 1].advance = false;''')], ROWENV + r'''
#include "object/merge_iterator.h"
typedef struct { Iterator it; int pos, count; int64_t* keys; Row* row[8]; } Src;
static bool s_has(Src* s)  { return s->pos < s->count; }
static Row* s_at(Src* s)   { return s_has(s) ? s->row[s->pos] : NULL; }
static void s_next(Src* s) { if (s_has(s)) s->pos++; }
static void s_init(Src* s, int64_t* keys, int count)
{
	memset(s, 0, sizeof(*s));
	s->it.has = (IteratorHas)s_has;
	s->it.at = (IteratorAt)s_at;
	s->it.next = (IteratorNext)s_next;
	s->count = count;
	for (int i = 0; i < count; i++)
		s->row[i] = mk64(keys[i]);
}
int main(void)
{
	demo_init();
	IndexConfig* c = make(INDEX_TREE, TYPE_INT, 8);
	int64_t a[] = { 5, 9 }, b[] = { 7, 8 }, d[] = { 1, 6 };
	Src s[3];
	s_init(&s[0], a, 2);
	s_init(&s[1], b, 2);
	s_init(&s[2], d, 2);
	MergeIterator m;
	merge_iterator_init(&m);
	for (int i = 0; i < 3; i++)
		merge_iterator_add(&m, &s[i].it);
	merge_iterator_open(&m, &c->keys);
	int64_t want[] = { 1, 5, 6, 7, 8, 9 };
	for (int i = 0; i < 6; i++)
	{
		CHECK(merge_iterator_has(&m) && val(merge_iterator_at(&m)) == want[i]);
		merge_iterator_next(&m);
	}
	CHECK(! merge_iterator_has(&m));
	return 0;
}
''', 'three or more branches where the smallest key is found after a non-adjacent earlier minimum', 'a row of another branch is skipped')

seed('meta_search_le', 'C17', [('amelie/db/object/meta_iterator.h',
 '''		if (compare(self->keys, at, row) < 0)
			begin = mid + 1;''', '''		if (compare(self->keys, at, row) <= 0)
			begin = mid + 1;''')], ROWENV + r'''
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include "object/region.h"
#include "object/region_writer.h"
#include "object/meta.h"
#include "object/meta_iterator.h"
int main(void)
{
	demo_init();
	IndexConfig* c = make(INDEX_TREE, TYPE_INT, 8);
	/* an index of regions [0..9] [10..19] ... */
	int n = 9;
	Meta meta;
	meta_init(&meta);
	meta.regions = n;
	Buf* data = buf_create(), *refs = buf_create();
	for (int i = 0; i < n; i++)
	{
		uint32_t offset = buf_size(refs);
		buf_write(data, &offset, sizeof(offset));
		Row* min = mk64(i * 10), *max = mk64(i * 10 + 9);
		MetaRegion r;
		memset(&r, 0, sizeof(r));
		r.size_min = row_size(min);
		r.size_max = row_size(max);
		buf_write(refs, &r, sizeof(r));
		buf_write(refs, min, r.size_min);
		buf_write(refs, max, r.size_max);
	}
	buf_write_buf(data, refs);
	for (int k = 0; k < n * 10; k++)
	{
		MetaIterator it;
		meta_iterator_init(&it);
		meta_iterator_open(&it, &meta, data, &c->keys, mk64(k));
		CHECK(meta_iterator_has(&it));
		CHECK(val(meta_region_min(meta_iterator_at(&it))) == k / 10 * 10);
	}
	return 0;
}
''', 'a lookup of the very last key of a region', 'the lookup starts in the next region and misses the row')
