//@proof map kind=proof unwind=4 covers=part_mapping_map
//@proof add_all kind=bounded bound=any_range_of_a_map_of_64_hashes loops=1 unwind=3 fallback=add_some covers=part_mapping_add
//@proof add_some kind=bounded unwind=7 bound=ranges_of_up_to_5_hashes covers=part_mapping_add
//@proof remove_all kind=bounded bound=any_range_of_a_map_of_64_hashes loops=1 unwind=3 fallback=remove_some covers=part_mapping_remove
//@proof remove_some kind=bounded unwind=7 bound=ranges_of_up_to_5_hashes covers=part_mapping_remove
//@proof create kind=native fuzz=8195 bound=every_number_of_partitions_from_-1_to_8193 covers=part_mgr_recover,part_mgr_create
//@loopinv for \(; min < max; min\+\+\)(\s*self->map\[min\] = part;) ==> for (; min < max; min++) __CPROVER_assigns(min, __CPROVER_object_whole(self->map)) __CPROVER_loop_invariant(lo <= min && (min <= hi || min == lo) && self->map[k] == (k >= lo && k < min ? part : was)) \1
//@loopinv for \(; min < max; min\+\+\)(\s*self->map\[min\] =\s*#[^;]*;) ==> for (; min < max; min++) __CPROVER_assigns(min, __CPROVER_object_whole(self->map)) __CPROVER_loop_invariant(lo <= min && (min <= hi || min == lo) && self->map[k] == (k >= lo && k < min ? (struct Part*)0 : was)) \1
//@flags -DVF_NO_REALLOC
#include <vf.h>
struct Part;
/* ghost: the range of the partition, one (any) hash, its owner before */
static int lo, hi, k;
static struct Part* was;
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#ifdef VF_CBMC
/* the hash of a row: any value, the same for the same row */
static uint32_t hash_of_row;
#define row_hash(row, keys) hash_of_row
#endif
#include <amelie_part.h>
#undef row_hash
#include <vf_env.h>
#ifndef VF_CBMC
#include "os/vfs.c"
#include "lib/uuid.c"
#endif

/* the contracts of add and remove do not depend on the size of the map: the
 * verifier uses a small one */
#ifdef VF_CBMC
#define MAP 64
#else
#define MAP PART_MAPPING_MAX
#endif
static Part*      owners[MAP];
static Part       part;
static Heap       heap;
static HeapHeader header;
static PartMapping mapping;

static void setup(int max)
{
	vf_init();
	mapping.map = owners;
	part.heap = &heap;
	heap.header = &header;
	lo = vf_range(0, MAP);
	hi = vf_range(0, MAP);
	VF_REQUIRES(hi - lo <= max);
	header.hash_min = lo;
	header.hash_max = hi;
	k = vf_range(0, MAP - 1);
	was = vf_bool() ? &part : NULL;
	owners[k] = was;
}
static void add_of(int max)
{
	setup(max);
	VF_REACH("add");
	part_mapping_add(&mapping, &part);
	VF_ENSURES(owners[k] == (k >= lo && k < hi ? &part : was), "add: the partition gets exactly the hashes of its range");
}
static void remove_of(int max)
{
	setup(max);
	VF_REACH("remove");
	part_mapping_remove(&mapping, &part);
	VF_ENSURES(owners[k] == (k >= lo && k < hi ? NULL : was), "remove: exactly the hashes of the range are given up");
}
VF_PROOF(add_all)     { add_of(MAP); }
VF_PROOF(add_some)    { add_of(5); }
VF_PROOF(remove_all)  { remove_of(MAP); }
VF_PROOF(remove_some) { remove_of(5); }

VF_PROOF(map)
{
#ifdef VF_CBMC
	static Part* all[PART_MAPPING_MAX];
	vf_init();
	mapping.map = all;
	k = vf_range(0, PART_MAPPING_MAX - 1);
	was = all[k] = &part;
	static Row row;
	hash_of_row = vf_u32();
	VF_REQUIRES(hash_of_row % PART_MAPPING_MAX == (uint32_t)k);
	VF_REACH("map");
	VF_ENSURES(part_mapping_map(&mapping, &row) == was, "map: a row belongs to the partition that has its hash");
#else
	VF_REACH("map");
#endif
}

/*
 * A new table: every hash belongs to exactly one partition, whatever the
 * number of partitions.
 */
#ifndef VF_CBMC
static int  made, volumes_used[3];
static uint16_t range[PART_MAPPING_MAX + 1][2];
static Part pool;
static Heap pool_heap;
static HeapHeader pool_header;
static uint64_t psn;
static Volume vols[3];
static Part* vf_part_allocate(Id* id, PartArg* arg)
{
	(void)arg;
	pool.id = *id;
	pool.heap = &pool_heap;
	pool_heap.header = &pool_header;
	list_init(&pool.link);
	list_init(&pool.link_volume);
	return &pool;
}
static void vf_part_mgr_add(PartMgr* self, Part* p)
{
	self->list_count++;
	p->id.volume->list_count++;
	volumes_used[p->id.volume - vols]++;
}
static void vf_heap_create(Heap* h, File* f, Id* id, int state)
{
	(void)f;
	VF_ENSURES(id->id == psn && state == STATE_INCOMPLETE, "create: every partition has its own id");
	range[made][0] = h->header->hash_min;
	range[made][1] = h->header->hash_max;
	made++;
}
#define part_allocate     vf_part_allocate
#define part_mgr_add      vf_part_mgr_add
#define heap_create       vf_heap_create
#define file_sync(f)      do { } while (0)
#define id_rename(i, a, b) do { VF_ENSURES(a == STATE_INCOMPLETE && b == STATE_COMPLETE && (int)(i)->version == 0, "create: a partition is complete when its file is"); } while (0)
#define state_directory() "/nonexistent"
#define state_psn_next()  (++psn)
#define fs_exists(...)    false
#define volume_mkdir(v)   do { } while (0)
#undef  opt_int_of
#define opt_int_of(o)     0
#define volume_mgr_ref(a, b) do { } while (0)
#include "part/part_mgr_recover.c"
#endif
VF_PROOF(create)
{
#ifndef VF_CBMC
	vf_init();
	static int n = -1;
	int64_t count = vf_replaying ? (int64_t)vf_range(0, 9000) - 1 : n++;
	if (! vf_replaying)
		vf_put(count + 1);
	if (n > 8193)
		n = -1;
	static PartMgr mgr;
	static PartMgrConfig config;
	static PartArg arg;
	static TierMgr tiers;
	memset(&mgr, 0, sizeof(mgr));
	memset(vols, 0, sizeof(vols));
	memset(volumes_used, 0, sizeof(volumes_used));
	list_init(&mgr.list);
	mgr.config = &config;
	mgr.arg = &arg;
	mgr.tier_mgr = &tiers;
	volume_mgr_init(&config.volumes);
	int volumes = vf_range(1, 3);
	int paused = vf_range(0, volumes), usable = 0;
	for (int i = 0; i < volumes; i++)
	{
		list_init(&vols[i].list);
		vols[i].pause = i == paused && volumes > 1;
		usable += !vols[i].pause;
		volume_mgr_add(&config.volumes, &vols[i]);
	}
	config.partitions = count;
	made = 0;
	psn = vf_range(0, 1000);
	VF_REACH("create");
	bool failed = error_catch( part_mgr_recover(&mgr) );
	if (count < 1 || count > PART_MAPPING_MAX)
	{
		VF_ENSURES(failed && made == 0, "create: an impossible number of partitions is refused");
		return;
	}
	VF_ENSURES(!failed && made == count && mgr.list_count == count, "create: as many partitions as configured");
	static uint8_t owned[PART_MAPPING_MAX];
	memset(owned, 0, sizeof(owned));
	for (int i = 0; i < made; i++)
	{
		VF_ENSURES(range[i][0] < range[i][1] && range[i][1] <= PART_MAPPING_MAX, "create: every partition has hashes");
		for (int h = range[i][0]; h < range[i][1]; h++)
			owned[h]++;
	}
	for (int h = 0; h < PART_MAPPING_MAX; h++)
		VF_ENSURES(owned[h] == 1, "create: every hash belongs to exactly one partition");
	for (int i = 0; i < volumes; i++)
	{
		VF_ENSURES(!vols[i].pause || !volumes_used[i], "create: a paused volume gets no partition");
		VF_ENSURES(vols[i].pause || (volumes_used[i] >= count / usable && volumes_used[i] <= count / usable + 1), "create: partitions are spread over the volumes");
	}
#endif
}
