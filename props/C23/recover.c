//@proof recover kind=native fuzz=600 ttimeout=300 bound=tables_of_up_to_40_partitions_on_up_to_3_volumes,_with_leftover_files covers=part_mgr_open,part_mgr_recover,part_mgr_find,part_mgr_drop,part_allocate,part_open,heap_create,heap_open,id_of,id_path
//@proof names kind=native fuzz=200000 bound=all_ids,_versions_and_states covers=id_of,id_path
//@link -lzstd -llz4
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <vf_env.h>
#include <ftw.h>
#include "os/vfs.c"
#include "lib/uuid.c"
#include "lib/crc.c"
#include "lib/rbtree.c"
#include "lib/codec_compression.c"
#include "heap/heap.c"
#include "heap/heap_file.c"
#include "index/tree.c"
#include "index/index_tree.c"
#include "index/index_hash.c"
#include "part/part_op.c"
#include "part/part.c"
#include "part/part_mgr.c"
#include "part/part_mgr_recover.c"
#include "storage/storage_mgr.c"
#include "transaction/relation_mgr.c"
#include "transaction/commit.c"

VF_PROOF(names)
{
	vf_init();
	static Runtime rt;
	am_runtime = &rt;
	rt.state.directory.type = OPT_STRING;
	str_set(&rt.state.directory.string, ".", 1);
	static Volume volume;
	Id id = { .id = vf_u64() & INT64_MAX, .version = vf_bool() ? 0 : vf_u64() & INT64_MAX, .volume = &volume };
	int state = vf_range(0, 2);
	char path[PATH_MAX];
	id_path(&id, path, state, vf_bool());
	char* name = strrchr(path, '/') + 1;
	int64_t a = vf_i64(), b = vf_i64();
	VF_REACH("names");
	int got = id_of(name, &a, &b);
	VF_ENSURES(got == state && (uint64_t)a == id.id && (uint64_t)b == id.version, "names: the name of a file tells its id, version and state");
	/* other names */
	static char other[64];
	int n = vf_range(0, 12);
	static const char set[] = "0123456789..sip";
	for (int i = 0; i < n; i++)
		other[i] = vf_range(0, 20) ? set[vf_range(0, sizeof(set) - 2)] : (char)vf_range(1, 126);
	other[n] = 0;
	static const char* tails[] = { "", ".incomplete", ".snapshot", ".snapshots", "incomplete", ".complete" };
	int tail = vf_range(0, 5);
	strcat(other, tails[tail]);
	got = id_of(other, &a, &b);
	/* <digits>[.<digits>][.incomplete|.snapshot] */
	char* p = other;
	int expect = -1;
	while (*p >= '0' && *p <= '9')
		p++;
	if (p[0] == '.' && p[1] >= '0' && p[1] <= '9')
		for (p++; *p >= '0' && *p <= '9'; p++) { }
	if (! *p)
		expect = STATE_COMPLETE;
	else if (! strcmp(p, ".incomplete"))
		expect = STATE_INCOMPLETE;
	else if (! strcmp(p, ".snapshot"))
		expect = STATE_SNAPSHOT;
	VF_ENSURES(got == expect, "names: other names are not taken for data files");
}

static Runtime      rt;
static char         dir[256];
static StorageMgr   storages;
static Storage*     storage[3];
static Columns      cols;
static Keys         keys;
static List         indexes;
static int          attached;

static int unlink_cb(const char* p, const struct stat* s, int f, struct FTW* w)
{
	(void)s; (void)f;
	return w->level > 0 ? remove(p) : 0;
}
static void attach(PartMgr* self)
{
	attached++;
	list_foreach(&self->list)
		part_open(list_at(Part, link));
}
static void detach(PartMgr* self) { (void)self; attached--; }
static PartMgrIf iface = { attach, detach };

static void env(void)
{
	vf_init();
	am_runtime = &rt;
	rt.crc = crc32;
	rt.config.storage_crc.type = OPT_BOOL;
	rt.config.storage_crc.integer = true;
	rt.config.storage_sync.type = OPT_BOOL;
	rt.config.storage_sync.integer = false;
	rt.state.psn.type = OPT_INT;
	rt.state.psn.integer = 0;
	rt.state.lsn.type = OPT_INT;
	rt.state.lsn.integer = 0;
	codec_cache_init(&rt.cache_compression);
	if (! *dir)
	{
		const char* scratch = getenv("VF_SCRATCH");
		snprintf(dir, sizeof(dir), "%s/vf23.XXXXXX", scratch ? scratch : ".");
		VF_REQUIRES(mkdtemp(dir) != NULL);
		columns_init(&cols);
		Column* c = column_allocate();
		column_set_type(c, TYPE_INT, 8);
		columns_add(&cols, c);
		keys_init(&keys, &cols);
		Key* key = key_allocate();
		key_set_ref(key, 0);
		keys_add(&keys, key);
		list_init(&indexes);
		IndexConfig* config = index_config_allocate(&cols);
		Str s;
		str_set(&s, "i", 1);
		index_config_set_name(config, &s);
		config->type = INDEX_HASH;
		key = key_allocate();
		key_set_ref(key, 0);
		keys_add(&config->keys, key);
		list_append(&indexes, &config->link);
		static Tr tr;
		tr_init(&tr);
		tr_begin(&tr);
		storage_mgr_init(&storages);
		for (int i = 0; i < 3; i++)
		{
			char name[8];
			sfmt(name, sizeof(name), "s%d", i);
			StorageConfig* sc = storage_config_allocate();
			str_set_cstr(&s, name);
			storage_config_set_name(sc, &s);
			storage[i] = storage_allocate(sc);
			storage[i]->config->compression_level = 0;
			relation_mgr_create(&storages.mgr, &tr, &storage[i]->rel);
		}
	}
	rt.state.directory.type = OPT_STRING;
	str_set(&rt.state.directory.string, dir, strlen(dir));
	nftw(dir, unlink_cb, 16, FTW_DEPTH | FTW_PHYS);
	fs_mkdir(0755, "%s/storage", dir);
}

static void opened(PartMgr* mgr, PartMgrConfig* config, PartArg* arg, TierMgr* tiers)
{
	part_mgr_init(mgr, &iface, NULL, config, arg, tiers, &keys);
	part_mgr_open(mgr, &indexes);
}
static Row* row_of(Heap* heap, int64_t k)
{
	Row* r = row_allocate(heap, 1, 8);
	uint8_t* p = row_data(r, 1);
	row_set(r, 0, p - (uint8_t*)r);
	*(int64_t*)p = k;
	return r;
}
static int files(Volume* v, const char* suffix)
{
	char path[PATH_MAX], id[UUID_SZ];
	uuid_get(&v->id, id, sizeof(id));
	sfmt(path, sizeof(path), "%s/storage/%s", dir, id);
	DIR* d = opendir(path);
	int n = 0;
	struct dirent* e;
	while ((e = readdir(d)))
	{
		size_t a = strlen(e->d_name), b = strlen(suffix);
		n += e->d_name[0] != '.' && a >= b && !strcmp(e->d_name + a - b, suffix);
	}
	closedir(d);
	return n;
}
VF_PROOF(recover)
{
	env();
	PartMgrConfig config;
	part_mgr_config_init(&config);
	config.partitions = vf_range(1, 40);
	int volumes = vf_range(1, 3);
	Volume* vols[3];
	for (int i = 0; i < volumes; i++)
	{
		vols[i] = volume_allocate();
		Uuid u = { i + 1, i + 1 };
		volume_set_id(vols[i], &u);
		volume_set_name(vols[i], &storage[i]->config->name);
		volume_mgr_add(&config.volumes, vols[i]);
	}
	static TierMgr tiers;
	tiers.storage_mgr = &storages;
	static Sequence seq;
	sequence_init(&seq);
	static Uuid id_table;
	PartArg arg = { .seq = &seq, .unlogged = false, .id_table = &id_table };
	PartMgr mgr;
	rt.state.psn.integer = vf_range(0, 1000);
	opened(&mgr, &config, &arg, &tiers);
	VF_ENSURES(mgr.list_count == config.partitions && attached == 1, "open: a new table gets its partitions");
	static uint64_t owner[PART_MAPPING_MAX];
	for (int h = 0; h < PART_MAPPING_MAX; h++)
	{
		VF_ENSURES(mgr.mapping.map[h] != NULL, "open: every hash belongs to a partition");
		owner[h] = mgr.mapping.map[h]->id.id;
	}
	/* rows are stored by the partition their key belongs to */
	int rows = vf_range(0, 200);
	static int64_t  row_key[200];
	static uint64_t row_owner[200];
	Heap* tmp = heap_allocate(false);
	for (int i = 0; i < rows; i++)
	{
		row_key[i] = i;
		Row* key = row_of(tmp, i);
		Part* part = part_mapping_map(&mgr.mapping, key);
		row_owner[i] = part->id.id;
		row_of(part->heap, i);
	}
	/* some of the partitions are saved, lsn moves on */
	uint64_t lsn = 0, psn = 0;
	bool saved[41] = {0};
	int n = 0;
	list_foreach(&mgr.list)
	{
		auto part = list_at(Part, link);
		if (part->id.id > psn)
			psn = part->id.id;
		saved[n] = vf_bool();
		if (saved[n])
		{
			part->heap->header->lsn = vf_range(0, 100000);
			if (part->heap->header->lsn > lsn)
				lsn = part->heap->header->lsn;
			id_delete(&part->id, STATE_COMPLETE);
			File file;
			file_init(&file);
			heap_create(part->heap, &file, &part->id, STATE_INCOMPLETE);
			file_close(&file);
			id_rename(&part->id, STATE_INCOMPLETE, STATE_COMPLETE);
		}
		n++;
	}
	/* what a crash may leave: files that are not complete, files of others */
	int left = vf_range(0, 4);
	for (int i = 0; i < left; i++)
	{
		Id id = { .id = vf_range(1, 2000), .version = vf_range(0, 3) ? 0 : vf_range(1, 3), .volume = vols[vf_range(0, volumes - 1)] };
		int state = vf_bool() ? STATE_INCOMPLETE : STATE_SNAPSHOT;
		char path[PATH_MAX];
		id_path(&id, path, state, false);
		int fd = open(path, O_CREAT | O_WRONLY, 0644);
		VF_REQUIRES(fd >= 0 && write(fd, "x", 1) == 1);
		close(fd);
		if (! id.version && id.id > psn)
			psn = id.id;
	}
	VF_REACH("recover");
	uint64_t ids[41], volume_of[41];
	bool seen[41] = {0};
	n = 0;
	list_foreach(&mgr.list)
	{
		auto part = list_at(Part, link);
		volume_of[n] = part->id.volume->id.a;
		ids[n++] = part->id.id;
	}
	static int count_was[3];
	for (int i = 0; i < volumes; i++)
		count_was[i] = vols[i]->list_count;
	part_mgr_close(&mgr);
	part_mgr_free(&mgr);
	volume_mgr_unref(&config.volumes);

	/* restart */
	rt.state.psn.integer = 0;
	rt.state.lsn.integer = 0;
	opened(&mgr, &config, &arg, &tiers);
	VF_ENSURES(mgr.list_count == n, "open: every partition is found again, nothing else");
	for (int i = 0; i < n; i++)
	{
		Part* part = part_mgr_find(&mgr, ids[i]);
		VF_ENSURES(part && part->id.volume->id.a == volume_of[i] && !seen[i], "open: every partition is found again, on its volume");
		seen[i] = true;
		int stored = 0;
		if (saved[i])
			for (int k = 0; k < rows; k++)
				stored += row_owner[k] == ids[i];
		int found = 0;
		for (int k = 0; k < rows; k++)
		{
			Iterator* it = index_iterator(part->indexes);
			Row* key = row_of(tmp, k);
			if (iterator_open(it, key) && ! compare(&keys, iterator_at(it), key))
			{
				found++;
				VF_ENSURES(row_owner[k] == ids[i], "open: a partition has only the rows that belong to it");
			}
			iterator_close(it);
			heap_remove(tmp, key);
		}
		VF_ENSURES(found == stored, "open: the rows of the partition are found again");
	}
	VF_ENSURES(part_mgr_find(&mgr, psn + 1) == NULL, "find: nothing for an unknown id");
	for (int h = 0; h < PART_MAPPING_MAX; h++)
		VF_ENSURES(mgr.mapping.map[h] && mgr.mapping.map[h]->id.id == owner[h], "open: every hash belongs to the same partition as before");
	for (int k = 0; k < rows; k++)
		VF_ENSURES(part_mapping_map(&mgr.mapping, row_of(tmp, row_key[k]))->id.id == row_owner[k], "map: a row belongs to the same partition as before");
	VF_ENSURES((uint64_t)rt.state.lsn.integer == lsn, "open: the log position is at least that of every partition");
	VF_ENSURES((uint64_t)rt.state.psn.integer >= psn, "open: ids in use are not given out again");
	for (int i = 0; i < volumes; i++)
	{
		VF_ENSURES(vols[i]->list_count == count_was[i], "open: the volumes know their partitions");
		/* files of other versions belong to the tiers */
		VF_ENSURES(files(vols[i], "") - files(vols[i], "t") - files(vols[i], "e") == count_was[i], "open: complete files are kept");
	}
	int incomplete = 0;
	for (int i = 0; i < volumes; i++)
	{
		char path[PATH_MAX], id[UUID_SZ];
		uuid_get(&vols[i]->id, id, sizeof(id));
		sfmt(path, sizeof(path), "%s/storage/%s", dir, id);
		DIR* d = opendir(path);
		struct dirent* e;
		while ((e = readdir(d)))
		{
			char* dot = strchr(e->d_name, '.');
			if (e->d_name[0] != '.' && dot && (dot[1] == 'i' || dot[1] == 's'))
				incomplete++;
		}
		closedir(d);
	}
	VF_ENSURES(incomplete == 0, "open: partition files that a crash left incomplete are removed");
	/* drop */
	part_mgr_close(&mgr);
	part_mgr_drop(&mgr);
	for (int i = 0; i < volumes; i++)
	{
		char path[PATH_MAX], id[UUID_SZ];
		uuid_get(&vols[i]->id, id, sizeof(id));
		sfmt(path, sizeof(path), "%s/storage/%s", dir, id);
		VF_ENSURES(access(path, F_OK) != 0, "drop: nothing is left");
	}
	part_mgr_free(&mgr);
	part_mgr_config_free(&config);
	heap_free(tmp);
}
