//@proof bucket unwind=66 covers=heap_bucket_of,heap_prepare,heap_set
//@proof add kind=bounded unwind=66 bound=a_page_of_up_to_3_chunks covers=heap_add
//@proof remove kind=bounded unwind=66 bound=a_page_of_up_to_3_chunks covers=heap_remove
//@proof lru kind=bounded unwind=66 bound=lists_of_up_to_4_chunks covers=heap_push,heap_unlink,heap_up
//@flags -DVF_NO_REALLOC
//@rewrite (HeapBucket buckets\[)\] ==> \g<1>385]
//@rewrite (uint64_t padding: 5;\s+uint8_t\s+data\[)\] ==> \g<1>24]
//@rewrite sizeof\(HeapChunk\) ==> __builtin_offsetof(HeapChunk, data)
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_heap.h>
#ifdef VF_CBMC
static HeapHeader header_mem;
static inline void* vf_malloc(size_t n)
{
	VF_ENSURES(n >= sizeof(HeapHeader), "the header has room for all buckets");
	return &header_mem;
}
#define am_malloc vf_malloc
#endif
#include "heap/heap.c"
#undef am_malloc
#include <vf_env.h>
#define CHUNKS 4
#define SLOT   48            /* bucket 2 */
typedef struct
{
	PageHeader h;
#ifdef VF_CBMC
	HeapChunk  c[CHUNKS];
#else
	uint8_t    mem[CHUNKS * SLOT];
#endif
} packed PageMem;
static PageMem pages[2];
static Page    page_list[4];
static Heap    heap;
#ifdef VF_CBMC
#define chunk(n) (&pages[0].c[n])
#else
#define chunk(n) ((HeapChunk*)(pages[0].mem + (n) * SLOT))
#endif
static int mmaped;
void* vfs_mmap(int fd, size_t size)
{
	(void)fd;
	VF_ENSURES(size == (size_t)heap.page_mgr.page_size, "pages are page sized");
	mmaped++;
	return &pages[1];
}
int vfs_munmap(void* p, size_t n) { (void)p; (void)n; return 0; }

static void begin(bool all)
{
	vf_init();
	heap.header = NULL;
#ifdef VF_CBMC
	if (! all)
	{
		/* the size class in use only */
		heap.header = &header_mem;
		heap.buckets = header_mem.buckets;
		header_mem.lru = header_mem.lru_offset = header_mem.lru_tail = header_mem.lru_tail_offset = 0;
		header_mem.count = header_mem.count_used = 0;
		header_mem.size_used = 0;
		HeapBucket* b = &header_mem.buckets[2];
		b->size = SLOT;
		b->list = b->list_offset = 0;
		b->list_count = 0;
		b->id = 2;
	}
#endif
	heap.shadow = NULL;
	heap.shadow_free = false;
	heap.lru = false;
	heap.last = NULL;
	heap.page_header = NULL;
	page_mgr_init(&heap.page_mgr);
	heap_prepare(&heap);
	mmaped = 0;
}
VF_PROOF(bucket)
{
	begin(true);
	int size = vf_range(1 + sizeof(HeapChunk), 1024 * 1024);
	HeapBucket* b = heap_bucket_of(&heap, size);
	int id = vf_range(0, 384);
	VF_REACH("bucket");
	VF_ENSURES(b >= heap.buckets && b < heap.buckets + 385, "bucket: one of the size classes");
	VF_ENSURES((int)b->size >= size, "bucket: chunks of the class have room for the data");
	VF_ENSURES(b->size % 16 == 0, "bucket: chunks stay aligned");
	VF_ENSURES((int)b->size - size <= 16 || ((int)b->size - size) * 16 <= size + 256, "bucket: little space is wasted");
	VF_ENSURES(b->id == b - heap.buckets && b->list_count == 0, "bucket: class is its own index, free list empty");
	VF_ENSURES(heap.buckets[id].id == id && (id == 0 || heap.buckets[id].size > heap.buckets[id - 1].size || id == 384), "bucket: classes are ordered");
	VF_ENSURES(heap.header->count_used == 0 && heap.header->size_used == 0 && heap.header->count == 0, "an empty heap");
}
/* a page with n chunks, the chunks of the mask are on the free list, in order */
static int  used_count;
static void page_of(int n, int mask, bool reverse)
{
	PageHeader* h = &pages[0].h;
	page_list[0].pointer = (uint8_t*)&pages[0];
	heap.page_mgr.list.start = (uint8_t*)page_list;
	heap.page_mgr.list.position = (uint8_t*)&page_list[1];
	heap.page_mgr.list.end = (uint8_t*)&page_list[4];
	heap.page_mgr.list_count = 1;
	heap.page_mgr.page_size = sizeof(PageHeader) + 3 * SLOT;
	heap.page_header = h;
	heap.header->count = 1;
	h->order = 0;
	h->size = sizeof(PageHeader) + n * SLOT;
	h->last = n ? sizeof(PageHeader) + (n - 1) * SLOT : 0;
	heap.last = n ? chunk(n - 1) : NULL;
	HeapBucket* b = &heap.buckets[2];
	used_count = 0;
	for (int i = 0; i < 3; i++)
	{
		int k = reverse ? 2 - i : i;
		if (k >= n)
			continue;
		HeapChunk* c = chunk(k);
		c->tsn = 0;
		c->prev = c->prev_offset = c->next = c->next_offset = 0;
		c->offset = sizeof(PageHeader) + k * SLOT;
		c->bucket = 2;
		c->bucket_left = k ? 2 : 0;
		c->is_last = k == n - 1;
		c->is_shadow = c->is_shadow_free = false;
		c->is_free = mask >> k & 1;
		if (c->is_free)
		{
			c->prev = b->list;
			c->prev_offset = b->list_offset;
			b->list = 0;
			b->list_offset = c->offset;
			b->list_count++;
		} else
			used_count++;
	}
	heap.header->count_used = used_count;
	heap.header->size_used = used_count * SLOT;
}
/* the free list has exactly the free chunks, each once */
static void consistent(int n)
{
	HeapBucket* b = &heap.buckets[2];
	int seen[CHUNKS] = {0}, count = 0, used = 0;
	uint64_t page = b->list, offset = b->list_offset;
	for (int i = 0; i < CHUNKS && offset; i++)
	{
		int at = -1;
		for (int k = 0; k < CHUNKS; k++)
			if (k < n && offset == sizeof(PageHeader) + k * SLOT)
				at = k;
		VF_ENSURES(page == 0 && at >= 0 && chunk(at)->is_free && ! seen[at], "the free list has free chunks, each once");
		seen[at] = 1;
		count++;
		page = chunk(at)->prev;
		offset = chunk(at)->prev_offset;
	}
	VF_ENSURES(offset == 0 && count == (int)b->list_count, "the free list is complete");
	for (int k = 0; k < CHUNKS; k++)
		if (k < n)
		{
			VF_ENSURES(chunk(k)->offset == sizeof(PageHeader) + k * SLOT && chunk(k)->bucket == 2 && chunk(k)->is_last == (k == n - 1) && (k == 0 || chunk(k)->bucket_left == 2), "chunks of a page follow each other");
			VF_ENSURES(chunk(k)->is_free == seen[k], "every free chunk is on the free list");
			used += ! chunk(k)->is_free;
		}
	VF_ENSURES(pages[0].h.size == sizeof(PageHeader) + n * SLOT && (n == 0 || pages[0].h.last == sizeof(PageHeader) + (n - 1) * SLOT), "the page ends at its last chunk");
	(void)used;
}
static void add_to(int n, int mask, bool reverse)
{
	begin(false);
	page_of(n, mask, reverse);
	uint8_t was[CHUNKS];
	for (int k = 0; k < 3; k++)
		was[k] = k < n ? chunk(k)->is_free : 2;
	uint8_t* p = heap_add(&heap, 20);
	VF_REACH("add");
	VF_ENSURES(heap.header->count_used == (uint32_t)used_count + 1 && heap.header->size_used == (uint64_t)(used_count + 1) * SLOT, "add: one more chunk in use");
	HeapChunk* c = heap_chunk_of(p);
	VF_ENSURES(! c->is_free && ! c->is_shadow && ! c->is_shadow_free && c->bucket == 2, "add: the chunk is in use");
	if (mask == 0 && n == 3)
	{
		VF_ENSURES(mmaped == 1 && heap.page_mgr.list_count == 2 && heap.header->count == 2, "add: a page is added when nothing fits");
		VF_ENSURES((uint8_t*)c == (uint8_t*)&pages[1] + sizeof(PageHeader) && c->offset == sizeof(PageHeader) && c->is_last && heap.last == c, "add: first chunk of the new page");
		VF_ENSURES(pages[1].h.order == 1 && pages[1].h.last == c->offset && pages[1].h.size == sizeof(PageHeader) + SLOT && heap.page_header == &pages[1].h, "add: new page header");
		consistent(3);
		return;
	}
	VF_ENSURES(mmaped == 0 && heap.page_mgr.list_count == 1, "add: no page is added while there is room");
	int at = -1;
	for (int k = 0; k < 3; k++)
		if ((uintptr_t)p == (uintptr_t)chunk(k)->data)
			at = k;
	VF_ENSURES(at >= 0 && (mask ? was[at] == 1 : at == n), "add: a free chunk, or the next one of the page; never one in use");
	consistent(mask ? n : n + 1);
	for (int k = 0; k < 3; k++)
		if (k < n && k != at)
			VF_ENSURES(chunk(k)->is_free == was[k], "add: other chunks are not affected");
	if (! mask)
		VF_ENSURES(heap.last == c, "add: the new chunk is the last one");
}
static void remove_from(int n, int mask, bool reverse, int at)
{
	begin(false);
	page_of(n, mask, reverse);
	heap_remove(&heap, chunk(at)->data);
	VF_REACH("remove");
	VF_ENSURES(chunk(at)->is_free, "remove: the chunk is free");
	VF_ENSURES(heap.header->count_used == (uint32_t)used_count - 1 && heap.header->size_used == (uint64_t)(used_count - 1) * SLOT, "remove: one chunk less in use");
	for (int k = 0; k < 3; k++)
		if (k < n && k != at)
			VF_ENSURES(chunk(k)->is_free == (mask >> k & 1), "remove: other chunks are not affected");
	consistent(n);
	VF_ENSURES(mmaped == 0 && heap.last == chunk(n - 1), "remove: pages stay");
}
#define STATE(n, mask, F, ...) do { if (vf_bool()) F(n, mask, false, ##__VA_ARGS__); else F(n, mask, true, ##__VA_ARGS__); } while (0)
VF_PROOF(add)
{
	switch (vf_range(0, 9)) {
	case 0: add_to(1, 0, false); break;
	case 1: add_to(1, 1, false); break;
	case 2: add_to(2, 0, false); break;
	case 3: STATE(2, 3, add_to); break;
	case 4: add_to(2, 1, false); break;
	case 5: add_to(3, 0, false); break;
	case 6: add_to(3, 4, false); break;
	case 7: STATE(3, 5, add_to); break;
	case 8: STATE(3, 6, add_to); break;
	default: STATE(3, 7, add_to); break;
	}
}
VF_PROOF(remove)
{
	switch (vf_range(0, 7)) {
	case 0: remove_from(1, 0, false, 0); break;
	case 1: remove_from(2, 0, false, 0); break;
	case 2: remove_from(2, 0, false, 1); break;
	case 3: remove_from(2, 2, false, 0); break;
	case 4: remove_from(3, 0, false, 1); break;
	case 5: remove_from(3, 4, false, 1); break;
	case 6: STATE(3, 6, remove_from, 0); break;
	default: STATE(3, 5, remove_from, 1); break;
	}
}
/* chunks are on the lru list in the given order */
static int  order[CHUNKS], ordered;
static void is_lru(void)
{
	HeapHeader* h = heap.header;
	uint64_t next = h->lru_offset, prev = 0;
	for (int i = 0; i < CHUNKS; i++)
	{
		if (i >= ordered)
			continue;
		HeapChunk* c = chunk(order[i]);
		VF_ENSURES(next == c->offset, "lru: forward order");
		VF_ENSURES(c->prev_offset == prev, "lru: backward order");
		prev = c->offset;
		next = c->next_offset;
	}
	VF_ENSURES(next == 0 && h->lru_tail_offset == prev, "lru: the list ends at its oldest chunk");
}
static void lru_of(int n, int at)
{
	begin(false);
	page_of(3, 0, false);
	heap.lru = true;
	ordered = 0;
	for (int i = 0; i < 3; i++)
		if (i < n)
		{
			heap_push(&heap, chunk(i));
			for (int k = ordered; k > 0; k--)
				order[k] = order[k - 1];
			order[0] = i;
			ordered++;
			is_lru();
		}
	if (at < 0)
	{
		VF_REACH("lru");
		return;
	}
	bool up = vf_bool();
	if (up)
		heap_up(&heap, chunk(at)->data);
	else
		heap_unlink(&heap, chunk(at));
	int j = 0, rest[CHUNKS];
	for (int i = 0; i < 3; i++)
		if (i < n && order[i] != at)
			rest[j++] = order[i];
	ordered = 0;
	if (up)
		order[ordered++] = at;
	for (int i = 0; i < 3; i++)
		if (i < j)
			order[ordered++] = rest[i];
	is_lru();
}
VF_PROOF(lru)
{
	switch (vf_range(0, 6)) {
	case 0: lru_of(1, 0); break;
	case 1: lru_of(2, 0); break;
	case 2: lru_of(2, 1); break;
	case 3: lru_of(3, 0); break;
	case 4: lru_of(3, 1); break;
	case 5: lru_of(3, 2); break;
	default: lru_of(3, -1); break;
	}
}
