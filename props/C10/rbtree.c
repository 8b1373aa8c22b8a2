//@proof small kind=native fuzz=1 covers=rbtree_set,rbtree_remove,rbtree_min,rbtree_max,rbtree_next,rbtree_prev
//@proof history kind=native fuzz=5000 covers=rbtree_init,rbtree_init_node,rbtree_set,rbtree_remove,rbtree_replace,rbtree_min,rbtree_max,rbtree_next,rbtree_prev
//@proof shapes kind=native fuzz=2 covers=rbtree_set,rbtree_remove,rbtree_next
//@proof walk kind=bounded unwind=8 timeout=400 bound=every_tree_of_up_to_7_nodes_on_three_levels covers=rbtree_next,rbtree_prev,rbtree_min,rbtree_max,rbtree_replace
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "amelie/runtime/lib/rbtree.c"

typedef struct
{
	RbtreeNode node;
	int        key;
} Item;

static inline
rbtree_get(find, (container_of(n, Item, node)->key - *(int*)key))

/* black height of a valid subtree with keys in (lo, hi), -1 if it is not */
static int count;
static int check(RbtreeNode* n, RbtreeNode* p, int64_t lo, int64_t hi, int depth)
{
	if (! n)
		return 0;
	int64_t key = container_of(n, Item, node)->key;
	if (n->p != p || key <= lo || key >= hi || depth > 40)
		return -1;
	if (n->color != RBTREE_RED && n->color != RBTREE_BLACK)
		return -1;
	if (n->color == RBTREE_RED && (! p || p->color == RBTREE_RED))
		return -1;
	count++;
	int l = check(n->l, n, lo, key, depth + 1);
	int r = check(n->r, n, key, hi, depth + 1);
	if (l < 0 || l != r)
		return -1;
	return l + (n->color == RBTREE_BLACK);
}

#ifndef VF_CBMC
static void valid(Rbtree* tree, int total)
{
	count = 0;
	VF_ENSURES(check(tree->root, NULL, INT64_MIN, INT64_MAX, 0) >= 0, "rbtree: ordered and balanced");
	VF_ENSURES(count == total, "rbtree: all nodes");
}

static void set(Rbtree* tree, Item* item)
{
	RbtreeNode* at = NULL;
	int rc = find(tree, NULL, &item->key, &at);
	VF_ENSURES(rc != 0 || at == NULL, "rbtree_get: not there yet");
	rbtree_set(tree, at, rc, &item->node);
	VF_ENSURES(find(tree, NULL, &item->key, &at) == 0 && at == &item->node, "rbtree_set: found");
}

static bool permute(int* p, int n)
{
	int i = n - 2;
	while (i >= 0 && p[i] > p[i + 1])
		i--;
	if (i < 0)
		return false;
	int j = n - 1;
	while (p[j] < p[i])
		j--;
	int t = p[i]; p[i] = p[j]; p[j] = t;
	for (int a = i + 1, b = n - 1; a < b; a++, b--)
	{
		t = p[a]; p[a] = p[b]; p[b] = t;
	}
	return true;
}

/* every order of adding 8 nodes and removing any one of them; every order of
 * adding 6 and of removing them */
VF_PROOF(small)
{
	vf_init();
	Item items[8];
	for (int n = 1; n <= 8; n++)
	{
		int in[8];
		for (int i = 0; i < n; i++)
			in[i] = i;
		do {
			int out[8];
			for (int i = 0; i < n; i++)
				out[i] = i;
			do {
				Rbtree tree;
				rbtree_init(&tree);
				for (int i = 0; i < n; i++)
				{
					items[in[i]].key = in[i];
					rbtree_init_node(&items[in[i]].node);
					set(&tree, &items[in[i]]);
				}
				valid(&tree, n);
				bool gone[8] = { 0 };
				int last = n <= 6 ? n : 1;
				for (int i = 0; i < last; i++)
				{
					rbtree_remove(&tree, &items[out[i]].node);
					gone[out[i]] = true;
					valid(&tree, n - i - 1);
					RbtreeNode* at = rbtree_min(&tree);
					for (int k = 0; k < n; k++)
						if (! gone[k])
						{
							VF_ENSURES(at == &items[k].node, "rbtree_next: the next key");
							at = rbtree_next(&tree, at);
						}
					VF_ENSURES(at == NULL, "rbtree_next: no more");
				}
				if (n > 6)
				{
					/* next one to remove first */
					if (out[0] == n - 1)
						break;
					out[0]++;
				}
			} while (n > 6 || permute(out, n));
		} while (permute(in, n));
	}
	VF_REACH("small");
}

/* red-black trees of a given black height, by number */
static Item pool[64];
static int  pool_used;

static uint64_t trees(int h, bool red)
{
	if (red)
		return h == 0 ? 1 : trees(h, false) * trees(h, false);
	if (h == 0)
		return 1;
	uint64_t sub = trees(h - 1, false) + trees(h - 1, true);
	return sub * sub;
}

static RbtreeNode* build(int h, bool red, uint64_t number)
{
	if (h == 0 && ! red)
		return NULL;
	int below = red ? h : h - 1;
	uint64_t black = trees(below, false);
	uint64_t sub = red ? black : black + trees(below, true);
	uint64_t l = number % sub, r = number / sub;
	RbtreeNode* left = l < black ? build(below, false, l) : build(below, true, l - black);
	Item* item = &pool[pool_used++];
	rbtree_init_node(&item->node);
	item->key = pool_used * 10;
	item->node.color = red ? RBTREE_RED : RBTREE_BLACK;
	item->node.l = left;
	item->node.r = r < black ? build(below, false, r) : build(below, true, r - black);
	if (item->node.l)
		item->node.l->p = &item->node;
	if (item->node.r)
		item->node.r->p = &item->node;
	return &item->node;
}

static void shape(int h, uint64_t number, int which)
{
	Rbtree tree;
	pool_used = 0;
	tree.root = build(h, false, number);
	int total = pool_used;
	valid(&tree, total);
	Item extra;
	if (which < 0)
	{
		/* add */
		extra.key = 5 + 10 * (-which - 1);
		rbtree_init_node(&extra.node);
		if (extra.key > total * 10 + 5)
			return;
		set(&tree, &extra);
		valid(&tree, total + 1);
		return;
	}
	if (which >= total)
		return;
	rbtree_remove(&tree, &pool[which].node);
	valid(&tree, total - 1);
	RbtreeNode* at = NULL;
	for (int i = 0; i < total; i++)
		if (i != which)
		{
			at = rbtree_next(&tree, at);
			VF_ENSURES(at == &pool[i].node, "rbtree_remove: the other nodes stay");
		}
}

/* every tree of black height up to 2 (15 nodes), many of height 3 (63 nodes):
 * adding at every place, removing every node */
VF_PROOF(shapes)
{
	vf_init();
	for (int h = 1; h <= 2; h++)
		for (uint64_t i = 0; i < trees(h, false); i++)
			for (int which = -16; which < 16; which++)
				shape(h, i, which);
	for (int k = 0; k < 20000; k++)
	{
		uint64_t number = vf_range(0, trees(3, false) - 1);
		/* mostly thin trees */
		if (vf_bool())
			number = trees(2, false) * vf_range(0, 40) + vf_range(0, 399);
		shape(3, number, (int)vf_range(0, 127) - 64);
	}
	VF_REACH("shapes");
}

VF_PROOF(history)
{
	vf_init();
	enum { N = 300 };
	static Item items[N], spare[N];
	Item* in[N] = { 0 };
	Rbtree tree;
	rbtree_init(&tree);
	int total = 0, keys = vf_range(1, N), steps = vf_range(1, 400);
	while (steps-- > 0)
	{
		int k = vf_range(0, keys - 1);
		if (! in[k])
		{
			in[k] = &items[k];
			items[k].key = k;
			rbtree_init_node(&items[k].node);
			rbtree_remove(&tree, &items[k].node);
			set(&tree, &items[k]);
			total++;
		} else
		if (vf_range(0, 4) == 0)
		{
			Item* to = in[k] == &items[k] ? &spare[k] : &items[k];
			to->key = k;
			rbtree_replace(&tree, &in[k]->node, &to->node);
			in[k] = to;
		} else
		{
			rbtree_remove(&tree, &in[k]->node);
			in[k] = NULL;
			total--;
		}
		valid(&tree, total);
		RbtreeNode* at = NULL;
		for (int i = 0; i < keys; i++)
			if (in[i])
			{
				at = rbtree_next(&tree, at);
				VF_ENSURES(at == &in[i]->node, "rbtree_next: keys in order");
			}
		VF_ENSURES(at == rbtree_max(&tree) && (! at || rbtree_next(&tree, at) == NULL), "rbtree_max");
		at = NULL;
		for (int i = keys - 1; i >= 0; i--)
			if (in[i])
			{
				at = rbtree_prev(&tree, at);
				VF_ENSURES(at == &in[i]->node, "rbtree_prev: keys in reverse order");
			}
		VF_ENSURES(at == rbtree_min(&tree) && (! at || rbtree_prev(&tree, at) == NULL), "rbtree_min");
	}
	VF_REACH("history");
}
VF_PROOF(walk) { vf_init(); VF_REACH("-"); }
#else

/* any red-black tree on three levels: nodes 1 .. 7 as in a heap, the key of a
 * node is its place in order */
static Item   items[8];
static bool   in[8];
static Item   extra;
static Rbtree tree;
static const int place[8] = { 0, 40, 20, 60, 10, 30, 50, 70 };

static void make(void)
{
	for (int i = 1; i < 8; i++)
	{
		items[i].key = place[i];
		in[i] = vf_bool();
		if (i > 1)
			VF_REQUIRES(! in[i] || in[i / 2]);
		items[i].node.color = vf_bool() ? RBTREE_RED : RBTREE_BLACK;
	}
	for (int i = 1; i < 8; i++)
	{
		items[i].node.p = i > 1 ? &items[i / 2].node : NULL;
		items[i].node.l = i < 4 && in[i * 2] ? &items[i * 2].node : NULL;
		items[i].node.r = i < 4 && in[i * 2 + 1] ? &items[i * 2 + 1].node : NULL;
	}
	tree.root = in[1] ? &items[1].node : NULL;
	/* valid */
	int h[16] = { 0 };
	for (int i = 7; i >= 1; i--)
	{
		int l = i < 4 ? h[i * 2] : 0, r = i < 4 ? h[i * 2 + 1] : 0;
		VF_REQUIRES(! in[i] || l == r);
		bool red = items[i].node.color == RBTREE_RED;
		VF_REQUIRES(! in[i] || ! red || (i > 1 && items[i / 2].node.color == RBTREE_BLACK));
		h[i] = in[i] ? l + (red ? 0 : 1) : 0;
	}
}

VF_PROOF(walk)
{
	vf_init();
	make();
	static const int order[7] = { 4, 2, 5, 1, 6, 3, 7 };
	int at = vf_range(1, 7);
	VF_REQUIRES(in[at]);
	RbtreeNode* next = NULL, *prev = NULL, *min = NULL, *max = NULL;
	bool behind = false;
	for (int i = 0; i < 7; i++)
	{
		int k = order[i];
		if (! in[k])
			continue;
		RbtreeNode* n = &items[k].node;
		if (! min)
			min = n;
		max = n;
		if (k == at)
			behind = true;
		else
		if (! behind)
			prev = n;
		else
		if (! next)
			next = n;
	}
	RbtreeNode* n = &items[at].node;
	VF_ENSURES(rbtree_next(&tree, n) == next, "rbtree_next: the next key");
	VF_ENSURES(rbtree_prev(&tree, n) == prev, "rbtree_prev: the previous key");
	VF_ENSURES(rbtree_min(&tree) == min && rbtree_next(&tree, NULL) == min, "rbtree_min: the first key");
	VF_ENSURES(rbtree_max(&tree) == max && rbtree_prev(&tree, NULL) == max, "rbtree_max: the last key");
	RbtreeNode save = *n;
	rbtree_replace(&tree, n, &extra.node);
	VF_ENSURES(extra.node.p == save.p && extra.node.l == save.l && extra.node.r == save.r && extra.node.color == save.color, "rbtree_replace: takes the place");
	VF_ENSURES(save.p ? (at % 2 ? save.p->r == &extra.node : save.p->l == &extra.node) : tree.root == &extra.node, "rbtree_replace: linked");
	VF_ENSURES((! save.l || save.l->p == &extra.node) && (! save.r || save.r->p == &extra.node), "rbtree_replace: linked");
	VF_REACH("walk");
}
#endif
