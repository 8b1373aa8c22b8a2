//@proof upsert_empty kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=empty_page_tree_of_3-row_pages,_any_content covers=tree_upsert,tree_search_page_for_write,tree_search,tree_set_into,tree_set
//@proof upsert_one kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=one_page_tree_of_3-row_pages,_any_content covers=tree_upsert,tree_search_page_for_write,tree_search,tree_set_into,tree_set
//@proof upsert_two_l kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(left_child)_page_tree_of_3-row_pages,_any_content covers=tree_upsert,tree_search_page_for_write,tree_search,tree_set_into,tree_set
//@proof upsert_two_r kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(right_child)_page_tree_of_3-row_pages,_any_content covers=tree_upsert,tree_search_page_for_write,tree_search,tree_set_into,tree_set
//@proof upsert_three kind=bounded qkind=native fuzz=100000 unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=three_page_tree_of_3-row_pages,_any_content covers=tree_upsert,tree_search_page_for_write,tree_search,tree_set_into,tree_set
//@proof replace_empty kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=empty_page_tree_of_3-row_pages,_any_content covers=tree_replace,tree_upsert
//@proof replace_one kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=one_page_tree_of_3-row_pages,_any_content covers=tree_replace,tree_upsert
//@proof replace_two_l kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(left_child)_page_tree_of_3-row_pages,_any_content covers=tree_replace,tree_upsert
//@proof replace_two_r kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(right_child)_page_tree_of_3-row_pages,_any_content covers=tree_replace,tree_upsert
//@proof replace_three kind=bounded qkind=native fuzz=100000 unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=three_page_tree_of_3-row_pages,_any_content covers=tree_replace,tree_upsert
//@proof delete_empty kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=empty_page_tree_of_3-row_pages,_any_content covers=tree_delete_by,tree_delete
//@proof delete_one kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=one_page_tree_of_3-row_pages,_any_content covers=tree_delete_by,tree_delete
//@proof delete_two_l kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(left_child)_page_tree_of_3-row_pages,_any_content covers=tree_delete_by,tree_delete
//@proof delete_two_r kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(right_child)_page_tree_of_3-row_pages,_any_content covers=tree_delete_by,tree_delete
//@proof delete_three kind=bounded qkind=native fuzz=100000 unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=three_page_tree_of_3-row_pages,_any_content covers=tree_delete_by,tree_delete
//@proof open_empty kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=empty_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_get
//@proof open_one kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=one_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_get
//@proof open_two_l kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(left_child)_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_get
//@proof open_two_r kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(right_child)_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_get
//@proof open_three kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=three_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_get
//@proof scan_empty kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=empty_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_iterator_next,tree_get
//@proof scan_one kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=one_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_iterator_next,tree_get
//@proof scan_two_l kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(left_child)_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_iterator_next,tree_get
//@proof scan_two_r kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(right_child)_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_iterator_next,tree_get
//@proof scan_three kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=three_page_tree_of_3-row_pages,_any_content covers=tree_iterator_open,tree_iterator_next,tree_get
//@proof write_one kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=one_page_tree_of_3-row_pages,_any_content covers=tree_iterator_replace,tree_iterator_delete,tree_iterator_next,tree_delete
//@proof write_two_l kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(left_child)_page_tree_of_3-row_pages,_any_content covers=tree_iterator_replace,tree_iterator_delete,tree_iterator_next,tree_delete
//@proof write_two_r kind=bounded unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=two_(right_child)_page_tree_of_3-row_pages,_any_content covers=tree_iterator_replace,tree_iterator_delete,tree_iterator_next,tree_delete
//@proof write_three kind=bounded qkind=native fuzz=100000 unwind=5 unwindfn=view:6,find:11,ceil_of:11,op_scan:11 timeout=240 ttimeout=900 mem=12 bound=three_page_tree_of_3-row_pages,_any_content covers=tree_iterator_replace,tree_iterator_delete,tree_iterator_next,tree_delete
//@rewrite Row\*\s+rows\[\] ==> Row* rows[3]
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
/*
 * modular step: the tree index is checked against the contract of the key
 * comparison (its sign orders the keys, any magnitude; proved in C13).
 */
static inline int vf_compare(Keys*, Row*, Row*);
#define compare vf_compare
#include <amelie_index.h>
#include <vf_env.h>
#ifdef VF_CBMC
/* pages come from typed storage instead of a byte heap */
static TreePage vf_p0, vf_p1, vf_p2, vf_p3;
static int      vf_pages_used;
static inline void* vf_page(void)
{
	switch (vf_pages_used++) {
	case 0: return &vf_p0;
	case 1: return &vf_p1;
	case 2: return &vf_p2;
	case 3: return &vf_p3;
	}
	VF_ENSURES(0, "pages are allocated only when needed");
	return NULL;
}
#define am_malloc(n) vf_page()
#define am_free(p)   ((void)(p))

/* memmove between row arrays, typed: same effect as libc memmove */
static inline bool vf_place(TreePage* p, const void* at, TreePage** page, int* pos)
{
	if (! __CPROVER_same_object(p, at))
		return false;
	ptrdiff_t off = __CPROVER_POINTER_OFFSET(at) - offsetof(TreePage, rows);
	__CPROVER_assert(off >= 0 && off % 8 == 0, "VF: rows are moved as whole pointers");
	*page = p;
	*pos = off / 8;
	return true;
}
void* memmove(void* d, const void* s, size_t n)
{
	TreePage *dp = NULL, *sp = NULL;
	int di = 0, si = 0;
	__CPROVER_assert(vf_place(&vf_p0, d, &dp, &di) || vf_place(&vf_p1, d, &dp, &di) || vf_place(&vf_p2, d, &dp, &di) || vf_place(&vf_p3, d, &dp, &di),
	                 "VF: rows are moved into a page");
	__CPROVER_assert(vf_place(&vf_p0, s, &sp, &si) || vf_place(&vf_p1, s, &sp, &si) || vf_place(&vf_p2, s, &sp, &si) || vf_place(&vf_p3, s, &sp, &si),
	                 "VF: rows are moved from a page");
	int count = n / 8;
	__CPROVER_assert(n % 8 == 0 && di + count <= 3 && si + count <= 3, "VF: rows are moved inside the pages");
	__CPROVER_assume(di + count <= 3 && si + count <= 3);
	Row* tmp[3];
	for (int i = 0; i < 3; i++)
		if (i < count)
			tmp[i] = sp->rows[si + i];
	for (int i = 0; i < 3; i++)
		if (i < count)
			dp->rows[di + i] = tmp[i];
	return d;
}
#endif
#include "lib/rbtree.c"
#include "index/tree.c"

/* rows: key k has two versions, stored (0) and argument (1) */
#define NKEY 16
static uint8_t  RB[NKEY * 16];
#define R(k, v) ((Row*)(RB + (k) * 16 + (v) * 8))
static inline int keyof(Row* r)
{
	ptrdiff_t at = (uint8_t*)r - RB;
	VF_ENSURES(at >= 0 && at < NKEY * 16 && at % 8 == 0, "only stored rows are compared");
	return (at >> 4) & (NKEY - 1);
}
static inline int vf_compare(Keys* k, Row* a, Row* b)
{
	(void)k;
	/* like a byte difference: any magnitude */
	return keyof(a) - keyof(b);
}

#define PAGE  3       /* rows per page */
#define SPLIT 2
#define MAXROWS 10
static Tree t;
static Keys keys;

static TreePage* mkpage(int n, int* last)
{
	TreePage* p = tree_allocate(&t);
	int have = vf_range(1, PAGE);
	p->keys_count = have;
	for (int i = 0; i < PAGE; i++)
	{
		if (i >= have)
		{
			p->rows[i] = NULL;
			continue;
		}
		int k = vf_range(0, NKEY - 1);
		VF_NATIVE_ONLY(if (!vf_replaying) { k = *last + 1 + k % 3; vf_log[vf_log[0]] = k; })
		VF_REQUIRES(k > *last && k < NKEY);
		*last = k;
		p->rows[i] = R(k, 0);
	}
	t.count += have;
	t.count_pages++;
	(void)n;
	return p;
}
static void setnode(TreePage* p, TreePage* up, TreePage* l, TreePage* r, int color)
{
	p->node.p = up ? &up->node : NULL;
	p->node.l = l ? &l->node : NULL;
	p->node.r = r ? &r->node : NULL;
	p->node.color = color;
}

/* every red-black tree of at most three pages, any page content */
enum { EMPTY, ONE, TWO_L, TWO_R, THREE };
static inline void mktree(int shape)
{
	tree_init(&t, PAGE, SPLIT, &keys);
	int last = -1;
	if (shape == EMPTY)
		return;
	TreePage* a = mkpage(0, &last);
	if (shape == ONE)
	{
		setnode(a, NULL, NULL, NULL, 0);
		t.tree.root = &a->node;
		return;
	}
	TreePage* b = mkpage(1, &last);
	if (shape == TWO_R)
	{
		setnode(a, NULL, NULL, b, 0);
		setnode(b, a, NULL, NULL, 1);
		t.tree.root = &a->node;
		return;
	}
	if (shape == TWO_L)
	{
		setnode(b, NULL, a, NULL, 0);
		setnode(a, b, NULL, NULL, 1);
		t.tree.root = &b->node;
		return;
	}
	TreePage* c = mkpage(2, &last);
	int color = vf_bool();
	setnode(b, NULL, a, c, 0);
	setnode(a, b, NULL, NULL, color);
	setnode(c, b, NULL, NULL, color);
	t.tree.root = &b->node;
}

/* the abstract view: the ordered sequence of rows */
static Row* seq[2][MAXROWS];
static int  seqn[2], seqpages[2];
static bool seqok[2];

static void walk(TreePage* p, int w)
{
	seqpages[w]++;
	if (p->keys_count < 1 || p->keys_count > PAGE)
	{
		seqok[w] = false;
		return;
	}
	for (int i = 0; i < PAGE; i++)
		if (i < p->keys_count)
		{
			Row* r = p->rows[i];
			if (r == NULL || seqn[w] >= MAXROWS ||
			    (seqn[w] > 0 && keyof(seq[w][seqn[w] - 1]) >= keyof(r)))
			{
				seqok[w] = false;
				return;
			}
			seq[w][seqn[w]++] = r;
		}
}
static void view(int w)
{
	seqn[w] = 0;
	seqpages[w] = 0;
	seqok[w] = true;
	RbtreeNode* n = rbtree_min(&t.tree);
	for (int i = 0; i < 5 && n; i++)
	{
		walk(container_of(n, TreePage, node), w);
		n = rbtree_next(&t.tree, n);
	}
	if (n)
		seqok[w] = false;
	if ((uint64_t)seqn[w] != t.count || seqpages[w] != t.count_pages)
		seqok[w] = false;
}
static Row* find(int w, int k)
{
	Row* r = NULL;
	for (int i = 0; i < MAXROWS; i++)
		if (i < seqn[w] && keyof(seq[w][i]) == k)
			r = seq[w][i];
	return r;
}
static Row* ceil_of(int w, int k)
{
	/* first row with a key not below k */
	for (int i = 0; i < MAXROWS; i++)
		if (i < seqn[w] && keyof(seq[w][i]) >= k)
			return seq[w][i];
	return NULL;
}
static void done(void) { VF_NATIVE_ONLY(tree_free(&t);) }

static inline void op_upsert(int shape)
{
	vf_init();
	mktree(shape);
	view(0);
	VF_REQUIRES(seqok[0]);
	int k = vf_range(0, NKEY - 1), q = vf_range(0, NKEY - 1);
	Row* arg = R(k, 1), *old = find(0, k), *oldq = find(0, q);
	TreePos pos = { NULL, 0 };
	bool exists = tree_upsert(&t, &pos, arg);
	VF_REACH("upsert");
	view(1);
	VF_ENSURES(exists == (old != NULL), "upsert reports whether the key existed");
	VF_ENSURES(pos.page && pos.page_pos >= 0 && pos.page_pos < pos.page->keys_count && pos.page->rows[pos.page_pos] == (old ? old : arg),
	           "upsert position is the row of the key");
	VF_ENSURES(seqok[1], "upsert keeps keys in order, one row per key, and the counts");
	VF_ENSURES(find(1, q) == (q == k && !old ? arg : oldq), "upsert inserts only a missing key and changes no other key");
	VF_ENSURES(seqn[1] == seqn[0] + !exists, "upsert adds one row");
	done();
}
static inline void op_replace(int shape)
{
	vf_init();
	mktree(shape);
	view(0);
	VF_REQUIRES(seqok[0]);
	int k = vf_range(0, NKEY - 1), q = vf_range(0, NKEY - 1);
	Row* arg = R(k, 1), *old = find(0, k), *oldq = find(0, q);
	Row* ret = tree_replace(&t, arg);
	VF_REACH("replace");
	view(1);
	VF_ENSURES(ret == old, "replace returns the previous row, or none");
	VF_ENSURES(seqok[1], "replace keeps keys in order, one row per key, and the counts");
	VF_ENSURES(find(1, q) == (q == k ? arg : oldq), "replace stores the row and changes no other key");
	done();
}
static inline void op_delete(int shape)
{
	vf_init();
	mktree(shape);
	view(0);
	VF_REQUIRES(seqok[0]);
	int k = vf_range(0, NKEY - 1), q = vf_range(0, NKEY - 1);
	Row* arg = R(k, 1), *old = find(0, k), *oldq = find(0, q);
	Row* ret = tree_delete_by(&t, arg);
	VF_REACH("delete");
	view(1);
	VF_ENSURES(ret == old, "delete returns the removed row, or none");
	VF_ENSURES(seqok[1], "delete keeps keys in order, one row per key, and the counts");
	VF_ENSURES(find(1, q) == (q == k ? NULL : oldq), "delete removes the key and changes no other key");
	VF_ENSURES(seqn[1] == seqn[0] - (old != NULL), "delete removes one row");
	done();
}
static inline void op_open(int shape)
{
	vf_init();
	mktree(shape);
	view(0);
	VF_REQUIRES(seqok[0]);
	int k = vf_range(0, NKEY - 1);
	TreeIterator it;
	tree_iterator_init(&it, &t);
	bool match = tree_iterator_open(&it, R(k, 1));
	VF_REACH("open");
	VF_ENSURES(match == (find(0, k) != NULL), "range scan reports an exact match");
	VF_ENSURES(tree_iterator_at(&it) == ceil_of(0, k), "range scan starts at the first key not below the bound");
	VF_ENSURES(tree_iterator_has(&it) == (ceil_of(0, k) != NULL), "range scan ends only after the last key");
	done();
}
static inline void op_scan(int shape)
{
	vf_init();
	mktree(shape);
	view(0);
	VF_REQUIRES(seqok[0]);
	TreeIterator it;
	tree_iterator_init(&it, &t);
	tree_iterator_open(&it, NULL);
	int n = 0;
	for (int i = 0; i < MAXROWS && tree_iterator_has(&it); i++)
	{
		VF_ENSURES(n < seqn[0] && tree_iterator_at(&it) == seq[0][n], "scan returns every row once, in key order");
		n++;
		tree_iterator_next(&it);
	}
	VF_REACH("scan");
	VF_ENSURES(n == seqn[0] && !tree_iterator_has(&it), "scan ends after the last row");
	done();
}
/* delete and replace at the scan position; the scan goes on with the next key */
static inline void op_write(int shape)
{
	vf_init();
	mktree(shape);
	view(0);
	VF_REQUIRES(seqok[0]);
	int k = vf_range(0, NKEY - 1), q = vf_range(0, NKEY - 1);
	Row* old = find(0, k), *oldq = find(0, q), *next = k + 1 < NKEY ? ceil_of(0, k + 1) : NULL;
	VF_REQUIRES(old != NULL);
	TreeIterator it;
	tree_iterator_init(&it, &t);
	tree_iterator_open(&it, R(k, 1));
	bool repl = vf_bool();
	Row* ret = repl ? tree_iterator_replace(&it, R(k, 1)) : tree_iterator_delete(&it);
	VF_REACH("positioned write");
	view(1);
	VF_ENSURES(ret == old, "replace and delete at a position return the previous row");
	VF_ENSURES(seqok[1], "replace and delete at a position keep keys in order and the counts");
	VF_ENSURES(find(1, q) == (q == k ? (repl ? R(k, 1) : NULL) : oldq), "replace and delete at a position change only that key");
	tree_iterator_next(&it);
	VF_ENSURES(tree_iterator_at(&it) == next, "the scan continues with the next key");
	done();
}
VF_PROOF(upsert_empty) { op_upsert(EMPTY); }
VF_PROOF(upsert_one) { op_upsert(ONE); }
VF_PROOF(upsert_two_l) { op_upsert(TWO_L); }
VF_PROOF(upsert_two_r) { op_upsert(TWO_R); }
VF_PROOF(upsert_three) { op_upsert(THREE); }
VF_PROOF(replace_empty) { op_replace(EMPTY); }
VF_PROOF(replace_one) { op_replace(ONE); }
VF_PROOF(replace_two_l) { op_replace(TWO_L); }
VF_PROOF(replace_two_r) { op_replace(TWO_R); }
VF_PROOF(replace_three) { op_replace(THREE); }
VF_PROOF(delete_empty) { op_delete(EMPTY); }
VF_PROOF(delete_one) { op_delete(ONE); }
VF_PROOF(delete_two_l) { op_delete(TWO_L); }
VF_PROOF(delete_two_r) { op_delete(TWO_R); }
VF_PROOF(delete_three) { op_delete(THREE); }
VF_PROOF(open_empty) { op_open(EMPTY); }
VF_PROOF(open_one) { op_open(ONE); }
VF_PROOF(open_two_l) { op_open(TWO_L); }
VF_PROOF(open_two_r) { op_open(TWO_R); }
VF_PROOF(open_three) { op_open(THREE); }
VF_PROOF(scan_empty) { op_scan(EMPTY); }
VF_PROOF(scan_one) { op_scan(ONE); }
VF_PROOF(scan_two_l) { op_scan(TWO_L); }
VF_PROOF(scan_two_r) { op_scan(TWO_R); }
VF_PROOF(scan_three) { op_scan(THREE); }
VF_PROOF(write_one) { op_write(ONE); }
VF_PROOF(write_two_l) { op_write(TWO_L); }
VF_PROOF(write_two_r) { op_write(TWO_R); }
VF_PROOF(write_three) { op_write(THREE); }
