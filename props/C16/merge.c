//@proof object_step unwind=6 covers=merge_iterator_next,merge_iterator_at,merge_iterator_has
//@proof object_open unwind=6 covers=merge_iterator_open,merge_iterator_next
//@proof tree_step unwind=6 covers=index_tree_merge_next,index_tree_merge_step,index_tree_merge_at,index_tree_merge_has
//@proof tree_open unwind=6 covers=index_tree_merge_open,index_tree_merge_step
//@proof hash_step unwind=6 covers=index_hash_merge_next,index_hash_merge_has,index_hash_merge_at
//@proof hash_open unwind=6 covers=index_hash_merge_open
//@assume merge: up to 4 sources (branches, partitions); every source of any length (step contracts over arbitrary source positions)
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
/*
 * modular step: merges are checked against the contracts of what they call:
 * compare (its sign orders keys, any magnitude; C13) and the iterators of
 * the sources (has/at/next/open over an ascending sequence; C14, C15, C17).
 */
static inline int vf_compare(Keys*, Row*, Row*);
#define compare vf_compare
#include "index/index_config.h"
#include "index/index.h"
#include "index/tree.h"
#include "index/tree_iterator.h"
#include "index/index_tree.h"
#include "index/index_tree_iterator.h"
#include "index/hash_store.h"
#include "index/hash.h"
#include "index/hash_iterator.h"
#include "index/index_hash.h"
#include "index/index_hash_iterator.h"
static inline bool vf_tree_open(TreeIterator*, Row*);
static inline Row* vf_tree_at(TreeIterator*);
static inline bool vf_tree_has(TreeIterator*);
static inline void vf_tree_next(TreeIterator*);
static inline bool vf_hash_open(HashIterator*, Row*);
static inline Row* vf_hash_at(HashIterator*);
static inline bool vf_hash_has(HashIterator*);
static inline void vf_hash_next(HashIterator*);
#define tree_iterator_open vf_tree_open
#define tree_iterator_at   vf_tree_at
#define tree_iterator_has  vf_tree_has
#define tree_iterator_next vf_tree_next
#define hash_iterator_open vf_hash_open
#define hash_iterator_at   vf_hash_at
#define hash_iterator_has  vf_hash_has
#define hash_iterator_next vf_hash_next
#include "index/index_tree_merge.h"
#include "index/index_hash_merge.h"
static inline Row* vf_it_at(Iterator*);
static inline void vf_it_next(Iterator*);
#define iterator_at   vf_it_at
#define iterator_next vf_it_next
#include "object/merge_iterator.h"
#undef iterator_at
#undef iterator_next
#include <vf_env.h>

#define N 4
#define AT_(p, a) ((p) == &(a)[0] ? 0 : (p) == &(a)[1] ? 1 : (p) == &(a)[2] ? 2 : 3)

/* a source is known by the row it is at and the row after it */
typedef struct { bool has, more; int64_t key, then; int steps, opens; } Src;
static Src     src[N];
static int64_t key_at[N][2];
static int     count;

static inline Row* src_row(int s) { return src[s].has ? (Row*)&key_at[s][src[s].steps ? 1 : 0] : NULL; }
static inline void src_any(int s)
{
	src[s].has  = vf_bool();
	src[s].more = vf_bool();
	src[s].key  = vf_i64();
	src[s].then = vf_i64();
	src[s].steps = src[s].opens = 0;
	VF_REQUIRES(! src[s].more || (src[s].has && src[s].then > src[s].key));
	key_at[s][0] = src[s].key;
	key_at[s][1] = src[s].then;
}
static inline void src_next(int s)
{
	VF_ENSURES(src[s].steps == 0, "merge: a source moves at most one row per step");
	src[s].steps++;
	src[s].has = src[s].more;
	src[s].key = src[s].then;
}
static inline int vf_compare(Keys* keys, Row* a, Row* b)
{
	(void)keys;
	int64_t x = *(int64_t*)a, y = *(int64_t*)b;
	int m = vf_range(1, INT32_MAX);
	return x < y ? -m : x > y ? m : 0;
}
static inline int src_min(void)
{
	int min = -1;
	for (int s = 0; s < N; s++)
		if (s < count && src[s].has && (min < 0 || src[s].key < src[min].key))
			min = s;
	return min;
}

/* merge of object branches: first source wins among equal keys */
static Iterator       oit[N];
static MergeIterator  om;
static MergeIteratorRef oref[N];
static inline Row* vf_it_at(Iterator* it)   { return src_row(AT_(it, oit)); }
static bool opening;
static inline void vf_it_next(Iterator* it)
{
	static int inside;
	if (! inside && opening)
	{
		inside = 1;
		VF_ENSURES(it == &om.it, "merge: opening positions the merge, no source");
		merge_iterator_next(&om);
		inside = 0;
		return;
	}
	src_next(AT_(it, oit));
}

static inline void object_init(void)
{
	merge_iterator_init(&om);
	count = vf_range(0, N);
	for (int s = 0; s < N; s++)
	{
		src_any(s);
		oref[s].it = &oit[s];
		oref[s].advance = false;
	}
	om.list.start = (uint8_t*)oref;
	om.list_count = count;
}
static inline void object_post(bool before, int64_t last)
{
	int min = src_min();
	VF_ENSURES(merge_iterator_has(&om) == (min >= 0), "merge: ends exactly when every source ended");
	VF_ENSURES(merge_iterator_at(&om) == (min >= 0 ? src_row(min) : NULL), "merge: the smallest key, from the first source that has it");
	if (min >= 0 && before)
		VF_ENSURES(src[min].key > last, "merge: keys strictly ascend, no key twice");
	for (int s = 0; s < N; s++)
		if (s < count)
			VF_ENSURES(oref[s].advance == (min >= 0 && src[s].has && src[s].key == src[min].key), "merge: every source at this key is stepped next, and no other");
}
VF_PROOF(object_step)
{
	vf_init();
	object_init();
	/* state after an earlier step: at the smallest key, all sources that hold it marked */
	int min = src_min();
	VF_REQUIRES(min >= 0);
	int64_t last = src[min].key;
	om.current = &oit[min];
	for (int s = 0; s < N; s++)
		if (s < count && src[s].has && src[s].key == last)
			oref[s].advance = true;
	bool moves[N];
	for (int s = 0; s < N; s++)
		moves[s] = oref[s].advance;
	merge_iterator_next(&om);
	VF_REACH("merge step");
	for (int s = 0; s < N; s++)
		VF_ENSURES(src[s].steps == (moves[s] ? 1 : 0), "merge: exactly the sources at the last key moved");
	object_post(true, last);
}
VF_PROOF(object_open)
{
	vf_init();
	object_init();
	Keys keys;
	opening = true;
	merge_iterator_open(&om, &keys);
	opening = false;
	VF_REACH("merge open");
	for (int s = 0; s < N; s++)
		VF_ENSURES(src[s].steps == 0, "merge: opening moves no source");
	object_post(false, 0);
}

/* merge of tree index partitions: every row of every partition, ascending */
static TreeIterator   tit[N];
static Tree           ttree;
static IndexTreeMerge tm;
static int            t_match;
static inline Row* vf_tree_at(TreeIterator* it)   { return src_row(AT_(it, tit)); }
static inline bool vf_tree_has(TreeIterator* it)  { return src[AT_(it, tit)].has; }
static inline void vf_tree_next(TreeIterator* it) { src_next(AT_(it, tit)); }
static Row t_key[1];
static inline bool vf_tree_open(TreeIterator* it, Row* key)
{
	VF_ENSURES(key == t_key, "tree merge: sources are opened at the requested key");
	src[AT_(it, tit)].opens++;
	return t_match >> (AT_(it, tit)) & 1;
}
static inline void tree_state(void)
{
	count = vf_range(0, N);
	for (int s = 0; s < N; s++)
	{
		src_any(s);
		tit[s].tree = &ttree;
	}
	tm.list.start = (uint8_t*)tit;
	tm.list_count = count;
	tm.current_it = NULL;
	tm.it.has = index_tree_merge_has;
}
static inline void tree_post(void)
{
	int min = src_min();
	VF_ENSURES(index_tree_merge_has(&tm.it) == (min >= 0), "tree merge: ends exactly when every partition ended");
	Row* row = index_tree_merge_at(&tm.it);
	VF_ENSURES((row == NULL) == (min < 0), "tree merge: a row exactly when one is left");
	if (min >= 0)
	{
		VF_ENSURES(*(int64_t*)row == src[min].key, "tree merge: the smallest key of all partitions");
		VF_ENSURES(tm.current_it && row == src_row(AT_(tm.current_it, tit)), "tree merge: the row of the partition that is stepped next");
	}
}
VF_PROOF(tree_step)
{
	vf_init();
	tree_state();
	int cur = vf_range(0, N - 1);
	VF_REQUIRES(cur < count && src[cur].has && src[cur].key == src[src_min()].key);
	tm.current_it = &tit[cur];
	index_tree_merge_next(&tm.it);
	VF_REACH("tree merge step");
	for (int s = 0; s < N; s++)
		VF_ENSURES(src[s].steps == (s == cur), "tree merge: exactly the partition of the last row moved");
	tree_post();
}
VF_PROOF(tree_open)
{
	vf_init();
	tree_state();
	t_match = vf_range(0, (1 << N) - 1);
	bool match = index_tree_merge_open(&tm.it, t_key);
	VF_REACH("tree merge open");
	bool want = false;
	for (int s = 0; s < N; s++)
	{
		VF_ENSURES(src[s].opens == (s < count) && src[s].steps == 0, "tree merge: every partition is opened once");
		want = want || (s < count && (t_match >> s & 1));
	}
	VF_ENSURES(match == want, "tree merge: exact match in any partition");
	tree_post();
}

/* merge of hash index partitions: every row of every partition */
static HashIterator   hit[N];
static IndexHashMerge hm;
static uint64_t       h_left[N];
static int            h_opens[N];
static char           h_row[N];
static inline Row* vf_hash_at(HashIterator* it)   { return (Row*)&h_row[it - hit]; }
static inline bool vf_hash_has(HashIterator* it)  { return h_left[it - hit] > 0; }
static inline void vf_hash_next(HashIterator* it)
{
	VF_ENSURES(h_left[it - hit] > 0, "hash merge: an ended partition is not stepped");
	h_left[it - hit]--;
}
static inline bool vf_hash_open(HashIterator* it, Row* key)
{
	VF_ENSURES(key == NULL, "hash merge: full scan");
	h_opens[it - hit]++;
	return false;
}
static inline void hash_state(void)
{
	count = vf_range(0, N);
	for (int s = 0; s < N; s++)
	{
		h_left[s] = vf_u64();
		h_opens[s] = 0;
	}
	hm.list.start = (uint8_t*)hit;
	hm.list_count = count;
	hm.current_it = NULL;
	hm.current_it_order = 0;
}
static inline void hash_post(void)
{
	int first = -1;
	for (int s = N - 1; s >= 0; s--)
		if (s < count && h_left[s])
			first = s;
	VF_ENSURES(index_hash_merge_has(&hm.it) == (first >= 0), "hash merge: ends exactly when every partition ended");
	VF_ENSURES(index_hash_merge_at(&hm.it) == (first >= 0 ? (Row*)&h_row[first] : NULL), "hash merge: a row of the first partition with rows left");
	if (first >= 0)
		VF_ENSURES(hm.current_it == &hit[first] && hm.current_it_order == first, "hash merge: position is the partition being read");
}
VF_PROOF(hash_step)
{
	vf_init();
	hash_state();
	int cur = vf_range(0, N - 1);
	VF_REQUIRES(cur < count && h_left[cur] > 0);
	for (int s = 0; s < N; s++)
		if (s < cur)
			h_left[s] = 0;
	uint64_t left[N];
	for (int s = 0; s < N; s++)
		left[s] = h_left[s];
	hm.current_it = &hit[cur];
	hm.current_it_order = cur;
	index_hash_merge_next(&hm.it);
	VF_REACH("hash merge step");
	for (int s = 0; s < N; s++)
		VF_ENSURES(h_left[s] == left[s] - (s == cur), "hash merge: one row of one partition is consumed per step");
	hash_post();
}
VF_PROOF(hash_open)
{
	vf_init();
	hash_state();
	uint64_t left[N];
	for (int s = 0; s < N; s++)
		left[s] = h_left[s];
	index_hash_merge_open(&hm.it, NULL);
	VF_REACH("hash merge open");
	for (int s = 0; s < N; s++)
		VF_ENSURES(h_left[s] == left[s] && h_opens[s] == (s < count), "hash merge: every partition is opened once, no row is skipped");
	hash_post();
}
