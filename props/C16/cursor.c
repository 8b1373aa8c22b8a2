//@proof heaps kind=native fuzz=4000 bound=1_to_6_partitions_of_up_to_401_rows,_tree_and_hash_indexes covers=cursor_open,cursor_lookup,cursor_scan,cursor_scan_cross,part_mgr_add,part_mgr_index_create,part_index_find,part_mapping_map
//@proof tiers kind=native fuzz=1500 bound=as_heaps,_with_a_tier_of_one_object_of_1_to_4_branches covers=cursor_open,cursor_lookup,cursor_scan,cursor_scan_cross,branch_iterator_reset,branch_iterator_open
//@link -lzstd -llz4
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <vf_env.h>
#include "os/vfs.c"
#include "lib/uuid.c"
#include "lib/crc.c"
#include "lib/rbtree.c"
#include "lib/codec_compression.c"
#include "object/object.c"
#include "object/writer.c"
#include "heap/heap.c"
#include "heap/heap_file.c"
#include "index/tree.c"
#include "index/index_tree.c"
#include "index/index_hash.c"
#include "storage/storage_mgr.c"
#include "transaction/relation_mgr.c"
#include "transaction/commit.c"
#include "tier/tier.c"
#include "tier/tier_mgr.c"
#include "part/part_op.c"
#include "part/part.c"
#include "part/part_mgr.c"
#include "part/part_mgr_recover.c"
#include "part/cursor.c"

/* A query reads a table through cursor_open: one partition or all of them, a
 * point or a range, by the primary or the secondary index, with or without a
 * cold tier. What it returns is compared with the set of rows stored. */

#define NKEYS 401
#define PARTS 6
#define MAXB  4

static Runtime       rt;
static Storage       storage;
static StorageConfig sconfig;
static Volume        volume;
static char          dir[256];
static Columns       cols;
static IndexConfig  *primary, *second;
static uint8_t       mem[1 + MAXB + 1][NKEYS][32];  /* 0: heap, 1..: branches, last: keys */
static int           owner[NKEYS];
static bool          stored[1 + MAXB][NKEYS];
static int           parts, branches;
static Part*         part[PARTS];
static PartMgr       mgr;
static TierMgr       tiers;
static PartMgrIf     iface;

static int64_t key0(int k) { return ((int64_t)k - NKEYS / 2) * 1000000007ll; }
static int64_t key1(int k) { return (k * 37) % NKEYS; }
static Row* mkrow(int gen, int k)
{
	Row* r = (Row*)mem[gen][k];
	int f, total = row_measure(3, 24, &f);
	VF_REQUIRES(total <= 32);
	row_init(r, 3, f, total);
	uint8_t* p = row_data(r, 3);
	row_set(r, 0, p - (uint8_t*)r);
	*(int64_t*)p = key0(k);
	row_set(r, 1, p + 8 - (uint8_t*)r);
	*(int64_t*)(p + 8) = key1(k);
	row_set(r, 2, p + 16 - (uint8_t*)r);
	*(int64_t*)(p + 16) = gen;
	return r;
}
static int64_t at(Row* r, int i) { int64_t v; memcpy(&v, row_at(r, i), 8); return v; }
static int key_of(Row* r) { return at(r, 0) / 1000000007ll + NKEYS / 2; }

static IndexConfig* config_make(const char* name, int type, int ref)
{
	IndexConfig* config = index_config_allocate(&cols);
	Str s;
	str_set(&s, (char*)name, strlen(name));
	index_config_set_name(config, &s);
	config->type = type;
	Key* key = key_allocate();
	key_set_ref(key, ref);
	keys_add(&config->keys, key);
	return config;
}
static void env(int type)
{
	vf_init();
	am_runtime = &rt;
	rt.crc = crc32;
	rt.config.storage_crc.type = OPT_BOOL;
	rt.config.storage_crc.integer = true;
	rt.config.storage_sync.type = OPT_BOOL;
	codec_cache_init(&rt.cache_compression);
	if (! *dir)
	{
		const char* scratch = getenv("VF_SCRATCH");
		snprintf(dir, sizeof(dir), "%s/vf16.XXXXXX", scratch ? scratch : ".");
		VF_REQUIRES(mkdtemp(dir) != NULL);
		char path[PATH_MAX], id[UUID_SZ];
		uuid_init(&volume.id);
		uuid_get(&volume.id, id, sizeof(id));
		snprintf(path, sizeof(path), "%s/storage", dir);
		mkdir(path, 0755);
		snprintf(path, sizeof(path), "%s/storage/%s", dir, id);
		mkdir(path, 0755);
		columns_init(&cols);
		for (int i = 0; i < 3; i++)
		{
			Column* c = column_allocate();
			column_set_type(c, TYPE_INT, 8);
			columns_add(&cols, c);
		}
	}
	rt.state.directory.type = OPT_STRING;
	str_set(&rt.state.directory.string, dir, strlen(dir));
	static const char* comp[] = { "", "zstd", "none" };
	int c = vf_range(0, 2);
	str_set(&sconfig.compression, (char*)comp[c], strlen(comp[c]));
	str_set(&sconfig.name, "s", 1);
	storage.config = &sconfig;
	volume.storage = &storage;
	volume.list_count = 0;
	list_init(&volume.list);

	primary = config_make("primary", type, 0);
	second  = config_make(vf_bool() ? "second" : "primary2", INDEX_TREE, 1);
	tier_mgr_init(&tiers, NULL, &primary->keys);
	part_mgr_init(&mgr, &iface, NULL, NULL, NULL, &tiers, &primary->keys);

	/* partitions of the hash range */
	parts = vf_range(1, PARTS);
	int cut[PARTS + 1];
	cut[0] = 0;
	cut[parts] = PART_MAPPING_MAX;
	for (int p = 1; p < parts; p++)
		cut[p] = (int64_t)PART_MAPPING_MAX * p / parts;
	for (int p = 1; p < parts; p++)
		cut[p] = vf_range(cut[p - 1] + 1, cut[p + 1] - 1);
	for (int p = 0; p < parts; p++)
	{
		Id id = { .id = 100 + p, .version = 0, .volume = &volume };
		part[p] = part_allocate(&id, NULL);
		part[p]->heap->header->hash_min = cut[p];
		part[p]->heap->header->hash_max = cut[p + 1];
		part_mgr_add(&mgr, part[p]);
		part_mapping_add(&mgr.mapping, part[p]);
	}
	part_mgr_index_create(&mgr, primary);
	part_mgr_index_create(&mgr, second);

	/* rows */
	memset(stored, 0, sizeof(stored));
	uint64_t x = vf_u64();
	int fill = vf_range(0, 100), lo = vf_range(0, NKEYS - 1), hi = vf_range(lo, NKEYS - 1);
	for (int n = 0; n < NKEYS; n++)
	{
		int k = (n * 53) % NKEYS;
		Row* r = mkrow(0, k);
		uint32_t h = row_hash(r, &primary->keys) % PART_MAPPING_MAX;
		owner[k] = -1;
		for (int p = 0; p < parts; p++)
			if ((int)h >= cut[p] && (int)h < cut[p + 1])
				owner[k] = p;
		VF_ENSURES(part_mapping_map(&mgr.mapping, r) == part[owner[k]], "cursor: a key belongs to one partition");
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		if (k < lo || k > hi || (int)((x >> 40) % 100) >= fill)
			continue;
		stored[0][k] = true;
		for (Index* i = part[owner[k]]->indexes; i; i = i->next)
			index_replace_by(i, r);
	}
	branches = 0;
}
static void env_free(void)
{
	if (! list_empty(&tiers.list))
	{
		Tier* tier = tier_mgr_first(&tiers);
		tier->config = NULL;
		list_unlink(&tier->link);
		tier_free(tier);
	}
	part_mgr_free(&mgr);
	index_config_free(primary);
	index_config_free(second);
}
/* the row a query of this partition (-1: of the table) sees for a key: where
 * it comes from (0: the heap, n: the n-th branch), -1: none */
static int visible(int p, int k)
{
	if (stored[0][k] && (p < 0 || owner[k] == p))
		return 0;
	for (int b = branches; b > 0; b--)
		if (stored[b][k])
			return b;
	return -1;
}
static void same(Row* r, int k, int gen)
{
	VF_ENSURES(r && key_of(r) == k && at(r, 0) == key0(k) && at(r, 1) == key1(k), "cursor: the row of the key");
	VF_ENSURES(at(r, 2) == gen, "cursor: the newest version of the row");
}
static void lookup(Part* p, int n, IndexConfig* config, int k)
{
	int gen = visible(n, k);
	Iterator* it = cursor_open(&mgr, p, config, true, mkrow(1 + MAXB, k));
	if (gen < 0) {
		/* not found: the caller compares the row it gets with the key */
		VF_ENSURES(! iterator_has(it) || key_of(iterator_at(it)) != k, "cursor: a lookup finds nothing which is not there");
	} else {
		VF_ENSURES(iterator_has(it), "cursor: a lookup finds the row");
		same(iterator_at(it), k, gen);
	}
	iterator_close(it);
}
static void scan(Part* p, int n, IndexConfig* config, bool ordered, int from)
{
	static bool seen[NKEYS];
	memset(seen, 0, sizeof(seen));
	int column = config == second;
	int64_t start = from < 0 ? INT64_MIN : column ? key1(from) : key0(from);
	Iterator* it = cursor_open(&mgr, p, config, false, from < 0 ? NULL : mkrow(1 + MAXB, from));
	int64_t last = INT64_MIN;
	for (; iterator_has(it); iterator_next(it))
	{
		Row* r = iterator_at(it);
		VF_ENSURES(r != NULL, "cursor: a row at each position");
		int k = key_of(r);
		VF_ENSURES(k >= 0 && k < NKEYS && ! seen[k], "cursor: a scan returns no row twice");
		seen[k] = true;
		int gen = visible(n, k);
		VF_ENSURES(gen >= 0, "cursor: a scan returns only rows of what is scanned");
		same(r, k, gen);
		int64_t v = at(r, column);
		VF_ENSURES(v >= start, "cursor: a scan starts at the key");
		VF_ENSURES(! ordered || v > last, "cursor: a scan is in key order");
		last = v;
	}
	VF_ENSURES(! iterator_at(it), "cursor: no row after the end");
	for (int k = 0; k < NKEYS; k++)
		VF_ENSURES(seen[k] || visible(n, k) < 0 || (column ? key1(k) : key0(k)) < start, "cursor: a scan skips no row");
	iterator_close(it);
}
static void queries(int type)
{
	for (int q = 0; q < 12; q++)
	{
		int k = vf_range(0, NKEYS - 1);
		/* a key of what is stored, half of the time */
		for (int i = vf_bool() ? NKEYS : 0; i > 0 && visible(-1, k) < 0; i--)
			k = (k + 1) % NKEYS;
		bool by_second = vf_range(0, 3) == 0 && ! branches;
		IndexConfig* config = by_second ? second : primary;
		bool ordered = by_second || type == INDEX_TREE;
		int n = parts == 1 || ! branches ? vf_srange(-1, parts - 1) : -1;
		Part* p = n < 0 ? NULL : part[n];
		if (vf_bool())
		{
			/* by the primary key: any partition; else the one asked for */
			if (by_second && n < 0)
				p = part[n = owner[k]];
			lookup(p, n < 0 ? (branches ? -1 : owner[k]) : n, config, k);
		} else {
			scan(p, n, config, ordered, ordered && vf_bool() ? k : -1);
		}
	}
}
VF_PROOF(heaps)
{
	int type = vf_bool() ? INDEX_TREE : INDEX_HASH;
	env(type);
	VF_REACH("heaps");
	queries(type);
	env_free();
}
VF_PROOF(tiers)
{
	env(INDEX_TREE);
	branches = vf_range(1, MAXB);
	Id id = { .id = 7, .version = branches, .volume = &volume };
	char path[PATH_MAX];
	id_path(&id, path, STATE_COMPLETE, false);
	unlink(path);
	Object* object = object_allocate(&id);
	object_create(object, STATE_COMPLETE);
	Writer* writer = writer_allocate();
	uint64_t x = vf_u64();
	for (int b = 1; b <= branches; b++)
	{
		int fill = vf_range(0, 100), lo = vf_range(0, NKEYS - 1), hi = vf_range(lo, NKEYS - 1);
		writer_start(writer, &object->file, &storage, vf_range(0, 3) ? vf_range(1, 1000) : vf_range(0, 100000));
		for (int k = lo; k <= hi; k++)
		{
			x = x * 6364136223846793005ull + 1442695040888963407ull;
			/* the first branch of an object which has rows is not empty */
			if ((int)((x >> 40) % 100) >= fill && ! (b == 1 && k == lo))
				continue;
			stored[b][k] = true;
			writer_add(writer, mkrow(b, k));
		}
		writer_stop(writer);
		writer_reset(writer);
	}
	writer_free(writer);
	object_free(object);

	Tier* tier = tier_allocate(NULL, &primary->keys);
	list_append(&tiers.list, &tier->link);
	tiers.list_count++;
	object = object_allocate(&id);
	object_open(object, STATE_COMPLETE);
	tier_add(tier, object);
	VF_REACH("tiers");
	queries(INDEX_TREE);
	env_free();
}
