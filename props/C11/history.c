//@proof history kind=native fuzz=2500 ttimeout=400 bound=histories_of_up_to_400_operations covers=heap_add,heap_remove,heap_iterator_open,heap_iterator_next,heap_snapshot,page_mgr_allocate
//@proof file kind=native fuzz=700 ttimeout=400 bound=heaps_of_up_to_400_chunks,_with_and_without_compression covers=heap_create,heap_open
//@proof damaged kind=native fuzz=4000 ttimeout=400 bound=heaps_of_up_to_60_chunks,_one_to_three_damaged_bytes_or_a_cut_tail covers=heap_open
//@proof sorted kind=native fuzz=1500 bound=heaps_of_up_to_200_rows covers=heap_index,heap_index_iterator_next
//@link -lzstd -llz4
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_heap.h>
#include <vf_env.h>
#include "os/vfs.c"
#include "lib/uuid.c"
#include "lib/crc.c"
#include "lib/codec_compression.c"
#include "heap/heap.c"
#include "heap/heap_file.c"
#include "heap/heap_index.c"

static Runtime      rt;
static Storage      storage;
static StorageConfig sconfig;
static Volume       volume;
static char         dir[256];

#define MAX 400
typedef struct { uint8_t* p; int size; uint8_t seed; bool shadow; } Live;
static Live live[MAX];
static int  live_count;
static Heap* heap;

static void env(void)
{
	vf_init();
	am_runtime = &rt;
	rt.crc = vf_bool() && crc32_sse_supported() ? crc32_sse : crc32;
	rt.config.storage_crc.type = OPT_BOOL;
	rt.config.storage_crc.integer = true;
	codec_cache_init(&rt.cache_compression);
	if (! *dir)
	{
		const char* scratch = getenv("VF_SCRATCH");
		snprintf(dir, sizeof(dir), "%s/vf11.XXXXXX", scratch ? scratch : ".");
		VF_REQUIRES(mkdtemp(dir) != NULL);
		char path[PATH_MAX], id[UUID_SZ];
		uuid_init(&volume.id);
		uuid_get(&volume.id, id, sizeof(id));
		snprintf(path, sizeof(path), "%s/storage", dir);
		mkdir(path, 0755);
		snprintf(path, sizeof(path), "%s/storage/%s", dir, id);
		mkdir(path, 0755);
	}
	rt.state.directory.type = OPT_STRING;
	str_set(&rt.state.directory.string, dir, strlen(dir));
	memset(&sconfig, 0, sizeof(sconfig));
	static const char* comp[] = { "", "zstd", "none" };
	int c = vf_range(0, 2);
	str_set(&sconfig.compression, (char*)comp[c], strlen(comp[c]));
	str_set(&sconfig.name, "s", 1);
	storage.config = &sconfig;
	volume.storage = &storage;
	live_count = 0;
}
static void fill(Live* l)
{
	for (int i = 0; i < l->size; i++)
		l->p[i] = l->seed + i * 31;
}
static void intact(Live* l)
{
	for (int i = 0; i < l->size; i++)
		VF_ENSURES(l->p[i] == (uint8_t)(l->seed + i * 31), "data of a chunk in use is never touched");
}
static int random_size(int limit)
{
	int size = vf_range(8, 1 << vf_range(3, 20));
	return size > limit ? limit : size;
}
static int max_size(void)
{
	/* the largest size class that fits a page */
	int room = heap->page_mgr.page_size - sizeof(PageHeader), max = 0;
	for (int i = 0; i < 385; i++)
		if ((int)heap->buckets[i].size <= room)
			max = heap->buckets[i].size;
	return max - 1 - sizeof(HeapChunk);
}
static bool add(int size)
{
	Live* l = &live[live_count];
	l->size = size;
	l->seed = vf_u8();
	l->shadow = heap->shadow != NULL;
	bool failed = error_catch( l->p = heap_add(heap, size) );
	VF_ENSURES(failed ? size > max_size() : size <= max_size(), "data that does not fit a page is refused, everything else is stored");
	if (failed)
		return false;
	VF_ENSURES(((uintptr_t)l->p & 7) == 0, "chunks are aligned");
	Heap* in = l->shadow ? heap->shadow : heap;
	bool inside = false;
	for (int i = 0; i < in->page_mgr.list_count; i++)
	{
		uint8_t* page = page_mgr_at(&in->page_mgr, i)->pointer;
		inside |= l->p >= page + sizeof(PageHeader) && l->p + size <= page + in->page_mgr.page_size;
	}
	VF_ENSURES(inside, "chunks are inside of a page");
	fill(l);
	live_count++;
	return true;
}
static void del(int i)
{
	intact(&live[i]);
	heap_remove(heap, live[i].p);
	live[i] = live[--live_count];
}
static int find(uint8_t* p, bool* seen)
{
	for (int i = 0; i < live_count; i++)
		if (live[i].p == p)
		{
			VF_ENSURES(! seen[i], "an iterator visits a chunk once");
			seen[i] = true;
			return i;
		}
	return -1;
}
/* the heap has exactly the live chunks of its own */
static void check(Heap* h, bool shadow, int extra)
{
	bool seen[MAX] = {0};
	int count = 0, want = extra;
	uint64_t used = 0;
	for (int i = 0; i < live_count; i++)
		want += live[i].shadow == shadow;
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, h, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it))
	{
		HeapChunk* c = heap_iterator_at_chunk(&it);
		used += h->buckets[c->bucket].size;
		count++;
		if (extra && (c->is_shadow_free || ! shadow))
			continue;
		int i = find((uint8_t*)heap_iterator_at(&it), seen);
		VF_ENSURES(i >= 0 && live[i].shadow == shadow, "an iterator visits chunks in use only");
		intact(&live[i]);
	}
	VF_ENSURES(count == want, "an iterator visits every chunk in use");
	VF_ENSURES(h->header->count_used == (uint32_t)want && h->header->size_used == used, "the totals of the heap match its chunks");
	VF_ENSURES(h->header->count == (uint32_t)h->page_mgr.list_count, "the header knows the number of pages");
	/* free lists: every free chunk once, by size class */
	uint64_t free_count = 0, total_free = 0;
	for (int b = 0; b < 385; b++)
	{
		uint64_t n = 0, page = h->buckets[b].list, offset = h->buckets[b].list_offset;
		for (; offset; n++)
		{
			VF_ENSURES(n < h->buckets[b].list_count, "a free list ends");
			HeapChunk* c = heap_chunk_at(h, page, offset);
			VF_ENSURES(c->is_free && c->bucket == (uint64_t)b, "a free list has free chunks of its class");
			page = c->prev;
			offset = c->prev_offset;
		}
		VF_ENSURES(n == h->buckets[b].list_count, "a free list is complete");
		free_count += n;
	}
	for (int i = 0; i < h->page_mgr.list_count; i++)
	{
		PageHeader* ph = (PageHeader*)page_mgr_at(&h->page_mgr, i)->pointer;
		VF_ENSURES(ph->order == (uint32_t)i && ph->size <= (uint32_t)h->page_mgr.page_size, "pages are in order and not overrun");
		uint64_t at = sizeof(PageHeader);
		while (at < ph->size)
		{
			HeapChunk* c = (HeapChunk*)((uint8_t*)ph + at);
			VF_ENSURES(c->offset == at && c->is_last == (at == ph->last), "chunks of a page follow each other");
			total_free += c->is_free;
			at += h->buckets[c->bucket].size;
		}
		VF_ENSURES(at == ph->size, "chunks fill the page");
	}
	VF_ENSURES(total_free == free_count, "every free chunk can be used again");
}
VF_PROOF(history)
{
	env();
	heap = heap_allocate(false);
	int n = vf_range(1, 400), limit = vf_range(0, 3) ? 3000 : 1048000;
	if (vf_range(0, 3) == 0)
		limit = 100;
	Heap* shadow = NULL;
	static Live delayed[MAX];
	int delayed_count = 0;
	for (int i = 0; i < n; i++)
	{
		switch (vf_range(0, 7)) {
		case 0: case 1: case 2: case 3:
			if (live_count < MAX)
				add(random_size(limit));
			break;
		case 4: case 5: case 6:
			if (live_count)
			{
				int at = vf_range(0, live_count - 1);
				if (shadow && ! live[at].shadow)
				{
					if (delayed_count < MAX)
					{
						delayed[delayed_count++] = live[at];
						del(at);
					}
				} else
					del(at);
			}
			break;
		default:
			if (vf_range(0, 7))
				break;
			if (! shadow)
			{
				shadow = heap_allocate(false);
				heap_snapshot(heap, shadow, true);
				delayed_count = 0;
				break;
			}
			/* snapshot is over: nothing of it has changed meanwhile */
			for (int k = 0; k < delayed_count; k++)
				intact(&delayed[k]);
			heap_snapshot(heap, NULL, false);
			int freed = 0;
			HeapIterator it;
			heap_iterator_init(&it);
			heap_iterator_open(&it, shadow, NULL);
			bool seen[MAX] = {0};
			for (; heap_iterator_has(&it); heap_iterator_next(&it))
			{
				HeapChunk* c = heap_iterator_at_chunk(&it);
				uint8_t* p = (uint8_t*)heap_iterator_at(&it);
				if (c->is_shadow_free)
				{
					uint8_t* of = *(uint8_t**)p;
					bool known = false;
					for (int k = 0; k < delayed_count; k++)
						if (delayed[k].p == of)
						{
							known = true;
							delayed[k].p = NULL;
						}
					VF_ENSURES(known, "frees during a snapshot are delayed, each once");
					heap_remove(heap, of);
					freed++;
					continue;
				}
				int k = find(p, seen);
				VF_ENSURES(k >= 0 && live[k].shadow, "chunks added during a snapshot are kept aside");
				uint8_t* copy = heap_add(heap, live[k].size);
				memcpy(copy, p, live[k].size);
				live[k].p = copy;
				live[k].shadow = false;
			}
			VF_ENSURES(freed == delayed_count, "frees during a snapshot are delayed, none is lost");
			for (int k = 0; k < live_count; k++)
				VF_ENSURES(! live[k].shadow, "no chunk of a snapshot is lost");
			heap_free(shadow);
			shadow = NULL;
			VF_REACH("snapshot");
			break;
		}
		if (i % 16 == 0 || i == n - 1)
		{
			check(heap, false, shadow ? delayed_count : 0);
			if (shadow)
				check(shadow, true, delayed_count);
		}
	}
	VF_REACH("history");
	for (int i = 0; i < live_count; i++)
		intact(&live[i]);
	if (shadow)
		heap_free(shadow);
	heap_free(heap);
}
static void build(int n, int limit)
{
	heap = heap_allocate(false);
	for (int i = 0; i < n; i++)
	{
		if (live_count && vf_range(0, 2) == 0)
			del(vf_range(0, live_count - 1));
		else
			add(random_size(limit));
	}
	heap->header->lsn = vf_u64();
	heap->header->hash_min = vf_u16();
	heap->header->hash_max = vf_u16();
}
static char* path_of(Id* id)
{
	static char path[PATH_MAX];
	id_path(id, path, STATE_COMPLETE, false);
	return path;
}
static void save(Id* id)
{
	unlink(path_of(id));
	File f;
	file_init(&f);
	heap_create(heap, &f, id, STATE_COMPLETE);
	file_close(&f);
}
/* chunks in use of both heaps, in order */
static bool equal(Heap* a, Heap* b)
{
	HeapIterator x, y;
	heap_iterator_init(&x);
	heap_iterator_init(&y);
	heap_iterator_open(&x, a, NULL);
	heap_iterator_open(&y, b, NULL);
	while (heap_iterator_has(&x) && heap_iterator_has(&y))
	{
		HeapChunk* c = heap_iterator_at_chunk(&x), *d = heap_iterator_at_chunk(&y);
		if (c->bucket != d->bucket || memcmp(c->data, d->data, a->buckets[c->bucket].size - sizeof(HeapChunk)))
			return false;
		heap_iterator_next(&x);
		heap_iterator_next(&y);
	}
	return ! heap_iterator_has(&x) && ! heap_iterator_has(&y);
}
VF_PROOF(file)
{
	env();
	build(vf_range(0, 400), vf_range(0, 3) ? 3000 : 300000);
	Id id = { .id = 7, .version = 0, .volume = &volume };
	save(&id);
	Heap* other = heap_allocate(false);
	heap_open(other, &id, STATE_COMPLETE);
	VF_REACH("file");
	VF_ENSURES(equal(heap, other), "file: a heap is read back exactly");
	VF_ENSURES(memcmp(&heap->header->version, &other->header->version, sizeof(HeapHeader) - 8 + sizeof(HeapBucket) * 385) == 0, "file: header and free lists are read back exactly");
	/* it can be used as before */
	Heap* was = heap;
	for (int i = 0; i < live_count; i++)
		for (int p = 0; p < was->page_mgr.list_count; p++)
		{
			uint8_t* page = page_mgr_at(&was->page_mgr, p)->pointer;
			if (live[i].p > page && live[i].p < page + was->page_mgr.page_size)
			{
				live[i].p = page_mgr_at(&other->page_mgr, p)->pointer + (live[i].p - page);
				break;
			}
		}
	heap = other;
	check(heap, false, 0);
	for (int i = 0; i < 20 && live_count < MAX; i++)
	{
		if (live_count && vf_bool())
			del(vf_range(0, live_count - 1));
		else
			add(random_size(3000));
	}
	check(heap, false, 0);
	heap_free(was);
	heap_free(other);
}
VF_PROOF(damaged)
{
	env();
	build(vf_range(1, 60), vf_range(0, 3) ? 300 : 30000);
	Id id = { .id = 8, .version = 0, .volume = &volume };
	save(&id);
	int fd = open(path_of(&id), O_RDWR);
	off_t size = lseek(fd, 0, SEEK_END);
	if (vf_range(0, 3) == 0)
		VF_REQUIRES(ftruncate(fd, vf_range(0, size - 1)) == 0);
	else
		for (int i = vf_range(1, 3); i > 0; i--)
		{
			uint8_t b;
			/* often in the header of the first page */
			off_t start = sizeof(HeapHeader) + sizeof(HeapBucket) * 385;
			off_t at = vf_bool() && start + (off_t)sizeof(PageHeader) < size ? start + (off_t)vf_range(0, sizeof(PageHeader) - 1) : (off_t)vf_range(0, size - 1);
			VF_REQUIRES(pread(fd, &b, 1, at) == 1);
			b ^= vf_range(1, 255);
			VF_REQUIRES(pwrite(fd, &b, 1, at) == 1);
		}
	close(fd);
	Heap* other = heap_allocate(false);
	bool failed = error_catch( heap_open(other, &id, STATE_COMPLETE) );
	VF_REACH("damaged");
	if (! failed)
		VF_ENSURES(equal(heap, other), "damage: a damaged heap file is refused, or read back as it was written");
	heap_free(heap);
	heap_free(other);
}
VF_PROOF(sorted)
{
	env();
	static Columns cols;
	static Keys keys;
	static Column* c;
	if (! c)
	{
		columns_init(&cols);
		c = column_allocate();
		column_set_type(c, TYPE_INT, 8);
		columns_add(&cols, c);
		keys_init(&keys, &cols);
		Key* key = key_allocate();
		key_set_ref(key, 0);
		keys_add(&keys, key);
	}
	heap = heap_allocate(false);
	int n = vf_range(0, 200), stored = 0;
	static Row* rows[200];
	bool on[200] = {0};
	int64_t sum = 0;
	for (int i = 0; i < n; i++)
	{
		Row* r = rows[i] = row_allocate(heap, 1, 8);
		uint8_t* p = row_data(r, 1);
		row_set(r, 0, p - (uint8_t*)r);
		*(int64_t*)p = vf_bool() ? vf_i64() : (int64_t)vf_range(0, 50);
		on[i] = true;
		stored++;
		if (vf_range(0, 3) == 0)
		{
			int k = vf_range(0, i);
			if (on[k])
			{
				row_free(heap, rows[k]);
				on[k] = false;
				stored--;
			}
		}
	}
	(void)sum;
	Buf buf;
	buf_init(&buf);
	heap_index(heap, &keys, &buf);
	HeapIndexIterator it;
	heap_index_iterator_init(&it);
	heap_index_iterator_open(&it, &buf);
	Row* prev = NULL;
	int seen = 0;
	for (; heap_index_iterator_has(&it); heap_index_iterator_next(&it))
	{
		Row* r = heap_index_iterator_at(&it);
		bool known = false;
		for (int i = 0; i < n; i++)
			if (on[i] && rows[i] == r)
			{
				known = true;
				on[i] = false;
			}
		VF_ENSURES(known, "sorted scan: every row in use, once");
		VF_ENSURES(! prev || compare(&keys, prev, r) <= 0, "sorted scan: in key order");
		prev = r;
		seen++;
	}
	VF_REACH("sorted");
	VF_ENSURES(seen == stored, "sorted scan: no row is missed");
	buf_free(&buf);
	heap_free(heap);
}
