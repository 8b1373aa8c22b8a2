//@proof roundtrip kind=native fuzz=1500 bound=1_to_4_branches_of_up_to_300_rows,_any_region_size,_with_and_without_compression covers=writer_start,writer_add,writer_stop,object_open,object_read,reader_execute,branch_iterator_open,branch_iterator_next
//@proof torn kind=native fuzz=1500 bound=as_roundtrip,_trailing_data_after_the_last_branch covers=object_open
//@proof damaged kind=native fuzz=4000 bound=as_roundtrip,_one_to_three_damaged_bytes_or_a_cut_tail covers=object_open,object_read,object_validate_index,reader_execute
//@link -lzstd -llz4
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <vf_env.h>
#include "os/vfs.c"
#include "lib/uuid.c"
#include "lib/crc.c"
#include "lib/rbtree.c"
#include "lib/codec_compression.c"
#include "object/object.c"
#include "object/writer.c"

#define ROWS 300
#define MAXB 4
static Runtime      rt;
static Storage      storage;
static StorageConfig sconfig;
static Volume       volume;
static Columns      cols;
static Keys         keys;
static char         dir[256];

typedef struct { int64_t key; int len; uint8_t seed; } Want;
static Want want[MAXB][ROWS];
static int  want_count[MAXB], branches;

static void vf_env17(void)
{
	vf_init();
	am_runtime = &rt;
	rt.crc = vf_bool() && crc32_sse_supported() ? crc32_sse : crc32;
	rt.config.storage_crc.type = OPT_BOOL;
	rt.config.storage_crc.integer = true;
	rt.config.storage_sync.type = OPT_BOOL;
	rt.config.storage_sync.integer = false;
	codec_cache_init(&rt.cache_compression);
	if (! *dir)
	{
		/* a directory inside the scratch directory of this run */
		const char* scratch = getenv("VF_SCRATCH");
		snprintf(dir, sizeof(dir), "%s/vf17.XXXXXX", scratch ? scratch : ".");
		VF_REQUIRES(mkdtemp(dir) != NULL);
		char path[PATH_MAX], id[UUID_SZ];
		uuid_init(&volume.id);
		uuid_get(&volume.id, id, sizeof(id));
		snprintf(path, sizeof(path), "%s/storage", dir);
		mkdir(path, 0755);
		snprintf(path, sizeof(path), "%s/storage/%s", dir, id);
		mkdir(path, 0755);
		columns_init(&cols);
		Column* c = column_allocate();
		column_set_type(c, TYPE_INT, 8);
		columns_add(&cols, c);
		c = column_allocate();
		column_set_type(c, TYPE_STRING, 0);
		columns_add(&cols, c);
		keys_init(&keys, &cols);
		Key* key = key_allocate();
		key_set_ref(key, 0);
		keys_add(&keys, key);
	}
	rt.state.directory.type = OPT_STRING;
	str_set(&rt.state.directory.string, dir, strlen(dir));
	memset(&sconfig, 0, sizeof(sconfig));
	static const char* comp[] = { "", "zstd", "none" };
	int c = vf_range(0, 2);
	str_set(&sconfig.compression, (char*)comp[c], strlen(comp[c]));
	str_set(&sconfig.name, "s", 1);
	storage.config = &sconfig;
	volume.storage = &storage;
}
static uint8_t rowbuf[2048];
static Row* mkrow(Want* w)
{
	int f, size = 8 + json_size_string(w->len), total = row_measure(2, size, &f);
	Row* r = (Row*)rowbuf;
	row_init(r, 2, f, total);
	uint8_t* p = row_data(r, 2);
	row_set(r, 0, p - (uint8_t*)r);
	*(int64_t*)p = w->key;
	p += 8;
	row_set(r, 1, p - (uint8_t*)r);
	char s[1024];
	for (int i = 0; i < w->len; i++)
		s[i] = w->seed + i * 7;
	Str str;
	str_set(&str, s, w->len);
	json_write_string(&p, &str);
	return r;
}
static void same_row(Row* r, Want* w, const char* what)
{
	Row* e = mkrow(w);
	VF_ENSURES(r && row_size(r) == row_size(e) && ! memcmp(r, e, row_size(e)), "object file: a row reads back exactly as it was written");
}
static Id id_of_file(void)
{
	Id id = { .id = 7, .version = branches, .volume = &volume };
	return id;
}
static char* file_path(void)
{
	static char path[PATH_MAX];
	Id id = id_of_file();
	id_path(&id, path, STATE_COMPLETE, false);
	return path;
}
static uint64_t ends[MAXB + 1];
static void write_file(void)
{
	branches = vf_range(1, MAXB);
	unlink(file_path());
	Id id = id_of_file();
	Object* object = object_allocate(&id);
	object_create(object, STATE_COMPLETE);
	Writer* writer = writer_allocate();
	int reuse = vf_bool();
	ends[0] = 0;
	for (int b = 0; b < branches; b++)
	{
		int n = want_count[b] = vf_range(0, 4) == 0 ? 0 : vf_range(1, ROWS);
		int region = vf_range(0, 3) ? vf_range(1, 3000) : vf_range(0, 100000);
		int maxlen = vf_range(0, 700);
		uint64_t x = vf_u64();
		int64_t key = (int64_t)(x >> 1) % 1000 - 500;
		writer_start(writer, &object->file, &storage, region);
		for (int i = 0; i < n; i++)
		{
			x = x * 6364136223846793005ull + 1442695040888963407ull;
			want[b][i] = (Want){ .key = key, .len = (x >> 33) % (maxlen + 1), .seed = x >> 20 };
			writer_add(writer, mkrow(&want[b][i]));
			key += 1 + (x >> 50) % 5;
		}
		writer_stop(writer);
		ends[b + 1] = object->file.size;
		if (reuse || b == branches - 1)
			writer_reset(writer);
		else {
			writer_free(writer);
			writer = writer_allocate();
		}
	}
	writer_free(writer);
	object_free(object);
}
static Object* open_file(void)
{
	Id id = id_of_file();
	Object* object = object_allocate(&id);
	object_open(object, STATE_COMPLETE);
	return object;
}
static Branch* branch_at(Object* object, int b)
{
	/* the newest branch is first */
	Branch* at = object->branches;
	for (int i = branches - 1; i > b && at; i--)
		at = at->next;
	return at;
}
static void check_all(Object* object)
{
	VF_ENSURES(object->branches_count == branches, "object file: every branch is found");
	for (int b = 0; b < branches; b++)
	{
		Branch* br = branch_at(object, b);
		VF_ENSURES((int)br->meta.rows == want_count[b], "object file: row count");
		VF_ENSURES(br->meta.size_total == ends[b + 1] - ends[b], "object file: branch size covers the branch");
		if (want_count[b])
		{
			same_row(branch_min(br), &want[b][0], "min");
			same_row(branch_max(br), &want[b][want_count[b] - 1], "max");
		}
		/* full scan */
		BranchIterator it;
		branch_iterator_init(&it);
		branch_iterator_open(&it, &keys, br, NULL);
		for (int i = 0; i < want_count[b]; i++)
		{
			VF_ENSURES(branch_iterator_has(&it), "object file: no row is missing");
			same_row(branch_iterator_at(&it), &want[b][i], "scan");
			branch_iterator_next(&it);
		}
		VF_ENSURES(! branch_iterator_has(&it) && ! branch_iterator_at(&it), "object file: no row is added");
		branch_iterator_free(&it);
		/* scan from a key, present or not */
		for (int n = 0; n < 3; n++)
		{
			int64_t from = want_count[b] ? want[b][vf_range(0, ROWS - 1) % want_count[b]].key + vf_srange(-1, 1) : 0;
			if (n == 2)
				from = vf_srange(-600, 2500);
			int i = 0;
			while (i < want_count[b] && want[b][i].key < from)
				i++;
			Want wk = { .key = from, .len = 0 };
			static uint8_t keybuf[64];
			memcpy(keybuf, mkrow(&wk), 40);
			branch_iterator_init(&it);
			bool match = branch_iterator_open(&it, &keys, br, (Row*)keybuf);
			VF_ENSURES(match == (i < want_count[b] && want[b][i].key == from), "object file: point lookup");
			for (int c = 0; i < want_count[b]; i++, c++)
			{
				VF_ENSURES(branch_iterator_has(&it), "object file: range scan misses no row");
				same_row(branch_iterator_at(&it), &want[b][i], "range");
				branch_iterator_next(&it);
			}
			VF_ENSURES(! branch_iterator_has(&it), "object file: range scan ends");
			branch_iterator_free(&it);
		}
	}
}
VF_PROOF(roundtrip)
{
	vf_env17();
	write_file();
	Object* object = open_file();
	check_all(object);
	VF_REACH("roundtrip");
	object_free(object);
}
/* data after the last branch of this version (an interrupted compaction) is
 * cut off, the branches stay */
VF_PROOF(torn)
{
	vf_env17();
	write_file();
	int extra = vf_range(0, 3000);
	FILE* f = fopen(file_path(), "a");
	for (int i = 0; i < extra; i++)
		fputc(i * 31 + 7, f);
	fclose(f);
	Object* object = open_file();
	check_all(object);
	VF_ENSURES(object->file.size == ends[branches], "object file: incomplete tail is cut");
	VF_ENSURES(vfs_size(file_path()) == (int64_t)ends[branches], "object file: the file ends with the last branch");
	VF_REACH("torn");
	object_free(object);
}
/* damage never goes unnoticed: the file is refused, or what it returns is
 * what was written */
VF_PROOF(damaged)
{
	vf_env17();
	write_file();
	int fd = open(file_path(), O_RDWR);
	if (vf_range(0, 3) == 0)
		(void)! ftruncate(fd, ends[branches] - 1 - vf_range(0, 500) % ends[branches]);
	else
	{
		for (int n = vf_range(1, 3); n > 0; n--)
		{
			uint64_t at = vf_u64() % ends[branches];
			if (vf_bool())
				at = ends[vf_range(0, branches - 1)] + vf_range(0, sizeof(Meta) - 1);
			uint8_t c = 0;
			(void)! pread(fd, &c, 1, at);
			c ^= 1 << vf_range(0, 7);
			(void)! pwrite(fd, &c, 1, at);
		}
	}
	close(fd);
	VF_MAY_THROW(true);
	VF_REACH("damaged");
	Object* object = open_file();
	check_all(object);
	object_free(object);
}
