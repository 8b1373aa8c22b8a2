//@proof store_set kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_table_of_4_slots_(thorough:_8);_any_hash_function covers=hash_store_set
//@proof store_delete kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_table_of_4_slots_(thorough:_8);_any_hash_function covers=hash_store_delete
//@proof store_get kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_table_of_4_slots_(thorough:_8);_any_hash_function covers=hash_store_get
//@proof set kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_table_of_4_slots;_any_hash_function covers=hash_set,hash_rehash,hash_rehash_start
//@proof set_rehash kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_two_tables_of_4_(thorough:_4_and_8)_slots_while_rehashing;_any_hash_function covers=hash_set,hash_rehash,hash_rehash_start
//@proof upsert kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_table_of_4_slots;_any_hash_function covers=hash_get_or_set,hash_iterator_open_at
//@proof upsert_rehash kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_two_tables_of_4_(thorough:_4_and_8)_slots_while_rehashing;_any_hash_function covers=hash_get_or_set,hash_iterator_open_at
//@proof del kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_table_of_4_slots;_any_hash_function covers=hash_delete
//@proof del_rehash kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_two_tables_of_4_(thorough:_4_and_8)_slots_while_rehashing;_any_hash_function covers=hash_delete
//@proof lookup kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_table_of_4_slots;_any_hash_function covers=hash_iterator_open,hash_iterator_at,hash_iterator_has
//@proof lookup_rehash kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_two_tables_of_4_(thorough:_4_and_8)_slots_while_rehashing;_any_hash_function covers=hash_iterator_open,hash_iterator_at,hash_iterator_has
//@proof scan kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_table_of_4_slots;_any_hash_function covers=hash_iterator_open,hash_iterator_next,hash_store_next
//@proof scan_rehash kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_two_tables_of_4_(thorough:_4_and_8)_slots_while_rehashing;_any_hash_function covers=hash_iterator_open,hash_iterator_next,hash_store_next
//@proof write kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_table_of_4_slots;_any_hash_function covers=hash_iterator_replace,hash_iterator_delete
//@proof write_rehash kind=bounded unwind=9 timeout=300 ttimeout=900 mem=16 bound=any_two_tables_of_4_(thorough:_4_and_8)_slots_while_rehashing;_any_hash_function covers=hash_iterator_replace,hash_iterator_delete
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
/*
 * modular step: the hash table is checked against the contracts of its two
 * callees, not their bodies --
 *   row_hash(r)      any function of the key of r        (proved in C13)
 *   compare(a, b)    zero exactly when the keys are equal (proved in C13)
 */
static inline uint32_t vf_row_hash(Row*, Keys*);
static inline int      vf_compare(Keys*, Row*, Row*);
#define row_hash vf_row_hash
#define compare  vf_compare
#include <amelie_index.h>
#include <vf_env.h>

/* table sizes: one operation from any well formed state of this size */
#define PREV 4
#ifdef VF_TIER_THOROUGH
#define CURR 8
#else
#define CURR 4
#endif
#define NK 4          /* keys   */
#define NR 5          /* rows: the last one is the argument of the operation */
static uint8_t  RB[NR * 8];
#define R(i)    ((Row*)(RB + (i) * 8))
static uint8_t  K[8];
static uint32_t H[NK];

static inline unsigned keyof(Row* r)
{
	ptrdiff_t at = (uint8_t*)r - RB;
	VF_ENSURES(at >= 0 && at < NR * 8 && at % 8 == 0, "only rows are compared and hashed");
	return K[(at >> 3) & 7];
}
static inline uint32_t vf_row_hash(Row* r, Keys* k) { (void)k; return H[keyof(r)]; }
static inline int vf_compare(Keys* k, Row* a, Row* b)
{
	(void)k;
	return (int)keyof(a) - (int)keyof(b);
}

static inline bool live(Row* r) { return r != NULL && r != HT_DELETED; }

/* representation invariant of one store, for the slots i and j:
 * a live row has no empty slot between its home slot and its place,
 * and no key has two rows */
static inline bool store_ok_at(HashStore* s, uint64_t i, uint64_t j)
{
	Row* r = s->rows[i];
	if (! live(r))
		return true;
	uint64_t home = H[keyof(r)] % s->size;
	bool between = home <= i ? (j >= home && j < i) : (j >= home || j < i);
	if (between && s->rows[j] == NULL)
		return false;
	return i == j || !live(s->rows[j]) || keyof(s->rows[j]) != keyof(r);
}
static inline uint64_t live_count(HashStore* s)
{
	uint64_t n = 0;
	for (uint64_t i = 0; i < s->size; i++)
		n += live(s->rows[i]);
	return n;
}
static bool store_ok(HashStore* s)
{
	for (uint64_t i = 0; i < s->size; i++)
		for (uint64_t j = 0; j < s->size; j++)
			if (! store_ok_at(s, i, j))
				return false;
	return live_count(s) == s->count;
}
/* postcondition form: arbitrary slots stand for all slots */
static bool store_still_ok(HashStore* s)
{
#ifdef VF_CBMC
	uint64_t i = nondet_vf(), j = nondet_vf();
	__CPROVER_assume(i < s->size && j < s->size);
	return store_ok_at(s, i, j) && live_count(s) == s->count;
#else
	return store_ok(s);
#endif
}

/* abstract view: which row is stored under a key */
static Row* view1(HashStore* s, unsigned key)
{
	Row* r = NULL;
	for (uint64_t i = 0; i < s->size; i++)
		if (live(s->rows[i]) && keyof(s->rows[i]) == key)
			r = s->rows[i];
	return r;
}

static void mkkeys(void)
{
	for (int i = 0; i < NR; i++)
		K[i] = vf_range(0, NK - 1);
	for (int i = 0; i < NK; i++)
		H[i] = vf_u32();
}

/* any table content over the rows from..to-1 */
static inline void mkstore(HashStore* s, uint64_t size, Row** rows, int from, int to)
{
	static Keys keys;
	hash_store_init(s);
	s->rows = rows;
	s->size = size;
	s->keys = &keys;
	for (uint64_t i = 0; i < size; i++)
	{
		int w = vf_range(0, NR + 1);
		rows[i] = w == NR ? (Row*)HT_DELETED : w >= from && w < to ? R(w) : NULL;
	}
#ifndef VF_CBMC
	/* natively: make it well formed (identity on well formed tables) */
	for (uint64_t i = 0; i < size; i++)
		for (uint64_t j = 0; j < i; j++)
			if (live(rows[i]) && live(rows[j]) && keyof(rows[i]) == keyof(rows[j]))
				rows[i] = HT_DELETED;
	for (uint64_t i = 0; i < size; i++)
		if (live(rows[i]))
			for (uint64_t j = H[keyof(rows[i])] % size; j != i; j = (j + 1) % size)
				if (! rows[j])
					rows[j] = HT_DELETED;
#endif
	s->count = live_count(s);
	VF_REQUIRES(store_ok(s));
}

#define ARG R(NR - 1)

VF_PROOF(store_set)
{
	vf_init();
	HashStore s;
	Row* rows[CURR];
	mkkeys();
	mkstore(&s, CURR, rows, 0, NR - 1);
	VF_REQUIRES(s.count < s.size);
	unsigned q = vf_range(0, NK - 1), k = keyof(ARG);
	Row* oldq = view1(&s, q), *old = view1(&s, k);
	uint64_t count = s.count;
	Row* ret = hash_store_set(&s, ARG);
	VF_REACH("set");
	VF_ENSURES(ret == old, "set returns the row it replaced, or none");
	VF_ENSURES(view1(&s, q) == (q == k ? ARG : oldq), "set stores the row and changes no other key");
	VF_ENSURES(store_still_ok(&s), "set keeps the table well formed (chains, one row per key, count)");
	VF_ENSURES(s.count == count + (ret == NULL), "set counts rows");
}

VF_PROOF(store_delete)
{
	vf_init();
	HashStore s;
	Row* rows[CURR];
	mkkeys();
	mkstore(&s, CURR, rows, 0, NR - 1);
	unsigned q = vf_range(0, NK - 1), k = keyof(ARG);
	Row* oldq = view1(&s, q), *old = view1(&s, k);
	Row* ret = hash_store_delete(&s, ARG);
	VF_REACH("delete");
	VF_ENSURES(ret == old, "delete returns the removed row, or none");
	VF_ENSURES(view1(&s, q) == (q == k ? NULL : oldq), "delete removes the key and changes no other key");
	VF_ENSURES(store_still_ok(&s), "delete keeps the table well formed (chains, one row per key, count)");
}

VF_PROOF(store_get)
{
	vf_init();
	HashStore s;
	Row* rows[CURR];
	mkkeys();
	mkstore(&s, CURR, rows, 0, NR - 1);
	unsigned q = vf_range(0, NK - 1), k = keyof(ARG);
	Row* oldq = view1(&s, q), *old = view1(&s, k);
	uint64_t at = 1000;
	Row* ret = hash_store_get(&s, ARG, &at);
	VF_REACH("get");
	VF_ENSURES(ret == old, "get returns the row stored under the key, or none");
	VF_ENSURES(at < s.size, "get returns a position inside the table");
	VF_ENSURES(ret ? s.rows[at] == ret : !live(s.rows[at]), "get position is the row, or a free slot");
	/* the free slot is usable: storing the key there keeps the table well formed */
	s.rows[at] = ARG;
	if (! ret)
		s.count++;
	VF_ENSURES(store_still_ok(&s), "get position can take the key");
	VF_ENSURES(q == k || view1(&s, q) == oldq, "get changes nothing");
}

static Hash h;

/* while a table is being rehashed its rows are spread over two stores */
static Row* view(unsigned key)
{
	Row* r = view1(&h.a, key);
	return r ? r : view1(&h.b, key);
}
static inline void mkhash(bool rehashing)
{
	static Keys keys;
	mkkeys();
	hash_init(&h);
	h.keys = &keys;
	h.rehashing = rehashing;
	Row** a = malloc(sizeof(Row*) * PREV);
	if (rehashing)
	{
		Row** b = malloc(sizeof(Row*) * CURR);
		mkstore(&h.b, PREV, a, 0, 2);
		mkstore(&h.a, CURR, b, 2, NR - 1);
		h.current = &h.a;
		h.prev    = &h.b;
		h.rehashing_pos = vf_range(0, PREV);
		for (uint64_t i = 0; i < PREV; i++)
			VF_REQUIRES(!live(a[i]) || (i >= h.rehashing_pos && view1(&h.a, keyof(a[i])) == NULL));
	} else
	{
		mkstore(&h.a, PREV, a, 0, NR - 1);
		h.current = &h.a;
		VF_REQUIRES(h.a.count <= PREV / 2);
	}
}
static bool hash_still_ok(void)
{
	bool in_a = h.current == &h.a;
	if (!in_a && h.current != &h.b)
		return false;
	if (! h.rehashing)
	{
		/* the store not in use is empty */
		return in_a ? store_still_ok(&h.a) && h.b.rows == NULL && h.b.size == 0 :
		              store_still_ok(&h.b) && h.a.rows == NULL && h.a.size == 0;
	}
	if (h.prev != (in_a ? &h.b : &h.a))
		return false;
	if (!store_still_ok(&h.a) || !store_still_ok(&h.b))
		return false;
	/* what is left to move is ahead, and is stored nowhere else */
	HashStore* p = in_a ? &h.b : &h.a;
	for (uint64_t i = 0; i < p->size; i++)
		if (live(p->rows[i]))
			if (i < h.rehashing_pos || view1(in_a ? &h.a : &h.b, keyof(p->rows[i])))
				return false;
	return true;
}
static void rmhash(void)
{
	VF_NATIVE_ONLY(hash_free(&h);)
}

static inline void op_set(bool rehashing)
{
	vf_init();
	mkhash(rehashing);
	unsigned q = vf_range(0, NK - 1), k = keyof(ARG);
	Row* oldq = view(q), *old = view(k);
	Row* ret = hash_set(&h, ARG);
	VF_REACH("set");
	VF_ENSURES(ret == old, "set returns the row it replaced, or none");
	VF_ENSURES(view(q) == (q == k ? ARG : oldq), "set stores the row and changes no other key");
	VF_ENSURES(hash_still_ok(), "set keeps the index well formed");
	rmhash();
}
VF_PROOF(set) { op_set(false); }
VF_PROOF(set_rehash) { op_set(true); }

static inline void op_upsert(bool rehashing)
{
	vf_init();
	mkhash(rehashing);
	unsigned q = vf_range(0, NK - 1), k = keyof(ARG);
	Row* oldq = view(q), *old = view(k);
	uint64_t pos = 1000;
	bool exists = hash_get_or_set(&h, ARG, &pos);
	VF_REACH("upsert");
	VF_ENSURES(exists == (old != NULL), "upsert reports whether the key existed");
	VF_ENSURES(view(q) == (q == k && !old ? ARG : oldq), "upsert inserts only a missing key and changes no other key");
	VF_ENSURES(hash_still_ok(), "upsert keeps the index well formed");
	VF_ENSURES(pos < h.current->size, "upsert position is inside the current table");
	HashIterator it;
	hash_iterator_init(&it, &h);
	hash_iterator_open_at(&it, pos);
	VF_ENSURES(hash_iterator_at(&it) == (old ? old : ARG), "upsert position is the row of the key");
	rmhash();
}
VF_PROOF(upsert) { op_upsert(false); }
VF_PROOF(upsert_rehash) { op_upsert(true); }

static inline void op_delete(bool rehashing)
{
	vf_init();
	mkhash(rehashing);
	unsigned q = vf_range(0, NK - 1), k = keyof(ARG);
	Row* oldq = view(q), *old = view(k);
	Row* ret = hash_delete(&h, ARG);
	VF_REACH("delete");
	VF_ENSURES(ret == old, "delete returns the removed row, or none");
	VF_ENSURES(view(q) == (q == k ? NULL : oldq), "delete removes the key and changes no other key");
	VF_ENSURES(hash_still_ok(), "delete keeps the index well formed");
	rmhash();
}
VF_PROOF(del) { op_delete(false); }
VF_PROOF(del_rehash) { op_delete(true); }

static inline void op_lookup(bool rehashing)
{
	vf_init();
	mkhash(rehashing);
	HashIterator it;
	hash_iterator_init(&it, &h);
	Row* was = view(keyof(ARG));
	bool found = hash_iterator_open(&it, ARG);
	VF_REACH("lookup");
	VF_ENSURES(found == (was != NULL), "point lookup finds the key exactly when it is stored");
	VF_ENSURES(hash_iterator_at(&it) == was && hash_iterator_has(&it) == found, "point lookup returns the stored row");
	if (found)
		VF_ENSURES(it.current_store->rows[it.pos] == was, "point lookup is positioned at the row");
	rmhash();
}
VF_PROOF(lookup) { op_lookup(false); }
VF_PROOF(lookup_rehash) { op_lookup(true); }

static inline void op_scan(bool rehashing)
{
	vf_init();
	mkhash(rehashing);
	HashIterator it;
	hash_iterator_init(&it, &h);
	uint64_t total = live_count(&h.a) + live_count(&h.b);
	unsigned q = vf_range(0, NK - 1);
	int seen = 0, n = 0;
	hash_iterator_open(&it, NULL);
	for (int i = 0; i < NR && hash_iterator_has(&it); i++)
	{
		Row* r = hash_iterator_at(&it);
		if (keyof(r) == q)
		{
			VF_ENSURES(view(q) == r, "scan returns stored rows");
			seen++;
		}
		n++;
		hash_iterator_next(&it);
	}
	VF_REACH("scan");
	VF_ENSURES(! hash_iterator_has(&it), "scan ends");
	VF_ENSURES((uint64_t)n == total, "scan returns every row");
	VF_ENSURES(seen == (view(q) != NULL), "scan returns every key exactly once");
	rmhash();
}
VF_PROOF(scan) { op_scan(false); }
VF_PROOF(scan_rehash) { op_scan(true); }

static inline void op_write_at(HashStore* store)
{
	unsigned q = vf_range(0, NK - 1), k = keyof(ARG);
	HashIterator it;
	hash_iterator_init(&it, &h);
	it.current_store = store;
	it.pos = vf_range(0, store->size - 1);
	it.current = store->rows[it.pos];
	VF_REQUIRES(live(it.current) && keyof(it.current) == k);
	Row* oldq = view(q), *old = it.current;
	bool repl = vf_bool();
	Row* ret = repl ? hash_iterator_replace(&it, ARG) : hash_iterator_delete(&it);
	VF_REACH("positioned write");
	VF_ENSURES(ret == old, "replace and delete at a position return the previous row");
	VF_ENSURES(view(q) == (q == k ? (repl ? ARG : NULL) : oldq), "replace and delete at a position change only that key");
	VF_ENSURES(hash_still_ok(), "replace and delete at a position keep the index well formed");
}
static inline void op_write(bool rehashing)
{
	vf_init();
	mkhash(rehashing);
	if (rehashing && vf_bool())
		op_write_at(&h.b);
	else
		op_write_at(&h.a);
	rmhash();
}
VF_PROOF(write) { op_write(false); }
VF_PROOF(write_rehash) { op_write(true); }
