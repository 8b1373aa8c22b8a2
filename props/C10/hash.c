//@proof table kind=bounded unwind=7 timeout=400 bound=tables_of_5_places_and_3_nodes covers=hashtable_set,hashtable_delete,hashtable_get
//@proof history kind=native fuzz=20000 covers=hashtable_create,hashtable_set,hashtable_delete,hashtable_get,hashtable_reserve,hashtable_next,hashtable_at,hashtable_is_full,hashtable_free
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>

typedef struct
{
	HashtableNode node;
	int           key;
} Item;

static bool same(HashtableNode* node, void* key)
{
	return container_of(node, Item, node)->key == *(int*)key;
}

#ifdef VF_CBMC
/* any hashes of three nodes, colliding or not; any two of them removed */
VF_PROOF(table)
{
	vf_init();
	static HashtableNode* places[5];
	static Item items[3];
	Hashtable ht;
	hashtable_init(&ht);
	ht.buf.start = (uint8_t*)places;
	ht.size = 5;
	for (int i = 0; i < 3; i++)
	{
		items[i].key = i;
		items[i].node.hash = vf_range(0, 4) + i * 5;
	}
	for (int i = 0; i < 3; i++)
		hashtable_set(&ht, &items[i].node);
	VF_ENSURES(ht.count == 3, "hashtable_set: counted");
	int a = vf_range(0, 2);
	hashtable_delete(&ht, &items[a].node);
	VF_ENSURES(ht.count == 2, "hashtable_delete: counted");
	int k = vf_range(0, 2);
	HashtableNode* n = hashtable_get(&ht, items[k].node.hash, same, &k);
	VF_ENSURES(n == (k == a ? NULL : &items[k].node), "hashtable_get: exactly the nodes which are there");
	int b = vf_range(0, 2);
	VF_REQUIRES(a != b);
	hashtable_delete(&ht, &items[b].node);
	n = hashtable_get(&ht, items[k].node.hash, same, &k);
	VF_ENSURES(n == (k == a || k == b ? NULL : &items[k].node), "hashtable_get: exactly the nodes which are there");
	hashtable_set(&ht, &items[a].node);
	n = hashtable_get(&ht, items[k].node.hash, same, &k);
	VF_ENSURES(n == (k == b ? NULL : &items[k].node), "hashtable_get: exactly the nodes which are there");
	VF_REACH("table");
}
#else
VF_PROOF(table) { vf_init(); VF_REACH("-"); }

VF_PROOF(history)
{
	vf_init();
	enum { N = 64 };
	static Item items[N];
	bool in[N] = { 0 };
	Hashtable ht;
	hashtable_init(&ht);
	VF_ENSURES(! hashtable_created(&ht), "hashtable_created");
	hashtable_create(&ht, vf_range(4, 16));
	VF_ENSURES(hashtable_created(&ht), "hashtable_created");
	int mode = vf_range(0, 2), total = 0;
	for (int i = 0; i < N; i++)
	{
		hashtable_node_init(&items[i].node);
		items[i].key = i;
		items[i].node.hash = mode == 0 ? vf_u32() : mode == 1 ? vf_range(0, 9) : 0xFFFFFFFFu - vf_range(0, 5);
	}
	int steps = vf_range(1, 200);
	while (steps-- > 0)
	{
		int i = vf_range(0, N - 1);
		if (in[i])
		{
			hashtable_delete(&ht, &items[i].node);
			total--;
		} else
		{
			hashtable_reserve(&ht);
			VF_ENSURES(ht.count < ht.size, "hashtable_reserve: room");
			hashtable_set(&ht, &items[i].node);
			total++;
		}
		in[i] = ! in[i];
		VF_ENSURES(ht.count == total, "hashtable: counted");
		for (int k = 0; k < N; k++)
			VF_ENSURES(hashtable_get(&ht, items[k].node.hash, same, &k) == (in[k] ? &items[k].node : NULL), "hashtable_get: exactly the nodes which are there");
		int seen = 0;
		bool visited[N] = { 0 };
		for (int pos = hashtable_next(&ht, -1); pos != -1; pos = hashtable_next(&ht, pos))
		{
			int k = container_of(hashtable_at(&ht, pos), Item, node)->key;
			VF_ENSURES(in[k] && ! visited[k], "hashtable_next: every node once");
			visited[k] = true;
			seen++;
		}
		VF_ENSURES(seen == total, "hashtable_next: all nodes");
	}
	hashtable_free(&ht);
	VF_REACH("history");
}
#endif
