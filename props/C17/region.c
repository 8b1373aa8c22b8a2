//@proof region_search kind=bounded unwind=8 tunwind=10 ttimeout=600 bound=up_to_40_rows,_thorough_200 covers=region_iterator_search,region_iterator_open,region_iterator_set_pos,region_iterator_compare
//@proof region_search_all loops=1 unwind=3 fallback=region_search covers=region_iterator_search,region_iterator_open,region_iterator_set_pos,region_iterator_compare
//@proof meta_search_all loops=1 unwind=3 fallback=meta_search covers=meta_iterator_search,meta_iterator_open,meta_iterator_at
//@loopinv while \(max >= min\) ==> while (max >= min) __CPROVER_assigns(min, mid, max) __CPROVER_loop_invariant(0 <= min && min <= max + 1 && max < total && min <= pivot && pivot <= (int64_t)max + (exact ? 0 : 1)) __CPROVER_decreases(max - min + 1)
//@loopinv while \(begin != end\) ==> while (begin != end) __CPROVER_assigns(begin, end) __CPROVER_loop_invariant(0 <= begin && begin <= end && end < total && begin <= pivot && (pivot <= end || end == total - 1)) __CPROVER_decreases(end - begin)
//@proof region_next unwind=1 covers=region_iterator_next,region_iterator_has,region_iterator_at
//@proof meta_search kind=bounded unwind=8 tunwind=10 ttimeout=600 bound=up_to_40_regions,_thorough_200 covers=meta_iterator_search,meta_iterator_open,meta_iterator_at
//@proof meta_next unwind=1 covers=meta_iterator_next,meta_iterator_has
//@proof region_add kind=bounded bound=four_combinations_of_row_sizes_and_earlier_rows unwind=34 unwindfn=memcpy:49,memset:49 covers=region_writer_add,region_writer_start,region_writer_min,region_writer_max,region_writer_last,region_writer_size
//@proof meta_add kind=bounded bound=four_combinations_of_row_sizes_and_earlier_entries unwind=2 unwindfn=memcpy:49,memset:49 covers=meta_writer_add,meta_writer_total
//@flags -DVF_NO_REALLOC -DVF_BYTE_COPY=48
//@rewrite (uint16_t columns;\s+uint8_t data\[)\] ==> \g<1>64]
//@rewrite sizeof\(Row\) ==> __builtin_offsetof(Row, data)
//@rewrite (uint32_t reserved\[4\];\s+uint8_t data\[)\] ==> \g<1>96]
//@rewrite sizeof\(MetaRegion\) ==> __builtin_offsetof(MetaRegion, data)
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
/*
 * modular step: searches are checked against the contracts of compare (sign,
 * any magnitude; C13) and of the row / region accessors (the n-th entry).
 */
static int64_t total, pivot;     /* entries, first entry not below the key */
static int     mag;
static bool    exact;            /* ... and it is equal to the key */
static inline int  vf_compare(Keys*, Row*, Row*);
#define compare vf_compare
#include "object/region.h"
static inline Row* vf_region_row(Region*, int);
#define region_row vf_region_row
#include "object/region_writer.h"
#include "object/region_iterator.h"
#include "object/meta.h"
static inline MetaRegion* vf_meta_region(Meta*, Buf*, int);
static inline Row* vf_meta_region_max(MetaRegion*);
#define meta_region     vf_meta_region
#define meta_region_max vf_meta_region_max
#include "object/meta_writer.h"
#include "object/meta_iterator.h"
#include <vf_env.h>

/* entries are opaque, known by their position only */
static Row*    the_key;
/* sizes and offsets are 32 bit: an entry takes at least 8 bytes with its offset */
#define SEARCH_LIMIT (1 << 29)
#define ENTRY(n) ((void*)(uintptr_t)(((uint64_t)(n) + 1) << 3))
#define POS(p)   ((int64_t)((uint64_t)(uintptr_t)(p) >> 3) - 1)

static inline int vf_compare(Keys* keys, Row* a, Row* b)
{
	(void)keys;
	VF_ENSURES(b == the_key, "search: entries are compared with the key");
	int64_t p = POS(a);
	VF_ENSURES(p >= 0 && p < total, "search: only existing entries are compared");
	return p < pivot ? -mag : (exact && p == pivot) ? 0 : mag;
}
static inline Row* vf_region_row(Region* region, int pos)
{
	(void)region;
	VF_ENSURES(pos >= 0 && pos < total, "search: row position is inside the region");
	return ENTRY(pos);
}
static inline MetaRegion* vf_meta_region(Meta* meta, Buf* data, int pos)
{
	(void)meta; (void)data;
	VF_ENSURES(pos >= 0 && pos < total, "search: region position is inside the index");
	return ENTRY(pos);
}
static inline Row* vf_meta_region_max(MetaRegion* region) { return (Row*)region; }

static inline void any_sequence(int64_t limit)
{
	total = vf_range(0, limit);
	pivot = vf_range(0, limit);
	mag   = vf_range(1, INT32_MAX);
	exact = vf_bool();
	VF_REQUIRES(pivot <= total && (! exact || pivot < total));
	the_key = ENTRY(-1 + (1ll << 40));
}

static void region_search(int limit)
{
	vf_init();
	any_sequence(limit);
	Region region = { .rows = total };
	RegionIterator it;
	Keys keys;
	region_iterator_init(&it);
	bool full = vf_bool();
	bool match = region_iterator_open(&it, &region, &keys, full ? NULL : the_key);
	VF_REACH("region search");
	int64_t want = full ? 0 : pivot;
	VF_ENSURES(match == (! full && exact), "region: open reports the exact key");
	VF_ENSURES(region_iterator_has(&it) == (want < total), "region: positioned unless every row is below the key");
	VF_ENSURES(region_iterator_at(&it) == (want < total ? ENTRY(want) : NULL), "region: positioned at the first row that is not below the key");
	VF_ENSURES(want >= total || it.pos == want, "region: position");
}
#ifdef VF_TIER_THOROUGH
#define SMALL 200
#else
#define SMALL 40
#endif
VF_PROOF(region_search)     { region_search(SMALL); }
VF_PROOF(region_search_all) { region_search(SEARCH_LIMIT); }
VF_PROOF(region_next)
{
	vf_init();
	any_sequence(SEARCH_LIMIT);
	Region region = { .rows = total };
	RegionIterator it;
	region_iterator_init(&it);
	it.region = &region;
	it.pos = vf_range(0, SEARCH_LIMIT);
	VF_REQUIRES(it.pos < total);
	it.current = ENTRY(it.pos);
	int64_t pos = it.pos;
	region_iterator_next(&it);
	VF_REACH("region next");
	VF_ENSURES(region_iterator_at(&it) == (pos + 1 < total ? ENTRY(pos + 1) : NULL), "region: next is the following row, then the end");
	if (pos + 1 == total)
	{
		region_iterator_next(&it);
		VF_ENSURES(! region_iterator_has(&it), "region: the end stays the end");
	}
}
static void meta_search(int limit)
{
	vf_init();
	any_sequence(limit);
	Meta meta = { .regions = total };
	Buf data;
	MetaIterator it;
	Keys keys;
	meta_iterator_init(&it);
	bool full = vf_bool();
	meta_iterator_open(&it, &meta, &data, &keys, full ? NULL : the_key);
	VF_REACH("index search");
	int64_t want = full ? 0 : pivot;
	VF_ENSURES(meta_iterator_at(&it) == (want < total ? ENTRY(want) : NULL), "region index: the first region that may hold the key");
	VF_ENSURES(want >= total || it.pos == want, "region index: position");
}
VF_PROOF(meta_search)     { meta_search(SMALL); }
VF_PROOF(meta_search_all) { meta_search(SEARCH_LIMIT); }
VF_PROOF(meta_next)
{
	vf_init();
	any_sequence(SEARCH_LIMIT);
	Meta meta = { .regions = total };
	MetaIterator it;
	meta_iterator_init(&it);
	it.meta = &meta;
	it.pos = vf_range(0, SEARCH_LIMIT);
	VF_REQUIRES(it.pos < total);
	int64_t pos = it.pos;
	it.current = ENTRY(pos);
	meta_iterator_next(&it);
	VF_REACH("index next");
	VF_ENSURES(meta_iterator_at(&it) == (pos + 1 < total ? ENTRY(pos + 1) : NULL), "region index: next is the following region, then the end");
	VF_ENSURES(meta_iterator_has(&it) == (pos + 1 < total), "region index: has");
}

/* writers: one more row / region, from any state of the writer */
#define CAP 192
static uint8_t m_mem[CAP + 256] __attribute__((aligned(8))), d_mem[CAP + 256] __attribute__((aligned(8)));
static inline void buf_over(Buf* buf, uint8_t* mem, int used)
{
	buf_init(buf);
	buf->start    = mem;
	buf->position = mem + used;
	buf->end      = mem + CAP;
}
static void region_add(int rows, int used, int size)
{
	RegionWriter w;
	buf_over(&w.meta, m_mem, 0);
	buf_over(&w.data, d_mem, 0);
	for (int i = 0; i < 24 + 2 * 4; i++)
		m_mem[i] = vf_u8();
	region_writer_start(&w);
	VF_ENSURES(region_writer_started(&w) && region_writer_header(&w)->rows == 0 && region_writer_last(&w) == NULL, "region writer: a started region is empty");
	/* ... any number of rows later */
	w.meta.position += rows * 4;
	w.data.position += used;
	region_writer_header(&w)->rows = rows;
	uint32_t* offsets = (uint32_t*)(m_mem + sizeof(Region));
	int k = vf_range(0, 1);
	uint32_t old = offsets[k];
	uint8_t  at = vf_range(0, 59), was = d_mem[at];

	/* a row of some size */
	static uint8_t row_mem[48 + 80];
	Row* row = (Row*)row_mem;
	row_init(row, 0, 0, size);
	int b = vf_range(0, size - 1);
	row_mem[5] = vf_u8();
	uint8_t byte = row_mem[b];

	uint32_t before = region_writer_size(&w);
	region_writer_add(&w, row);
	VF_REACH("region writer");
	VF_ENSURES(region_writer_header(&w)->rows == (uint32_t)rows + 1, "region writer: row count");
	VF_ENSURES(offsets[rows] == (uint32_t)used, "region writer: the new row is found behind the others");
	VF_ENSURES(k >= rows || offsets[k] == old, "region writer: offsets of earlier rows stay");
	VF_ENSURES(at >= used || d_mem[at] == was, "region writer: earlier rows stay");
	VF_ENSURES(d_mem[used + b] == byte, "region writer: the row is copied as it is");
	VF_ENSURES(region_writer_size(&w) == before + 4 + (uint32_t)size, "region writer: size grows by the row and its offset");
	VF_ENSURES((uint8_t*)region_writer_max(&w) == d_mem + used && (uint8_t*)region_writer_last(&w) == d_mem + used, "region writer: last row is the maximum");
	VF_ENSURES((uint8_t*)region_writer_min(&w) == d_mem, "region writer: first row is the minimum");
}

VF_PROOF(region_add)
{
	vf_init();
	switch (vf_range(0, 3)) {
	case 0: region_add(0, 0, 4);   break;
	case 1: region_add(1, 7, 12);  break;
	case 2: region_add(2, 60, 40); break;
	case 3: region_add(1, 4, 4);   break;
	}
}

static void meta_add(int s1, int s2, int regions, int used)
{
	/* a finished region of two rows */
	RegionWriter w;
	static uint8_t rm[64 + 256] __attribute__((aligned(8))), rd[64 + 256] __attribute__((aligned(8)));
	memset(&w, 0, sizeof(w));
	row_init((Row*)rd, 0, 0, s1);
	row_init((Row*)(rd + s1), 0, 0, s2);
	Region* header = (Region*)rm;
	header->rows = 2;
	header->size = sizeof(Region) + 8 + s1 + s2;
	((uint32_t*)(rm + sizeof(Region)))[0] = 0;
	((uint32_t*)(rm + sizeof(Region)))[1] = s1;
	w.meta.start = rm;
	w.meta.position = rm + sizeof(Region) + 8;
	w.meta.end = rm + 64;
	w.data.start = rd;
	w.data.position = rd + s1 + s2;
	w.data.end = rd + 64;
	uint32_t stored = vf_range(1, 1 << 20);
	static struct iovec iov[2];
	iov[0].iov_len = vf_range(0, 1 << 19);
	VF_REQUIRES(iov[0].iov_len <= stored);
	iov[1].iov_len = stored - iov[0].iov_len;
	w.encoder.iov.iov.start = (uint8_t*)iov;
	w.encoder.iov.iov_count = 2;
	w.encoder.iov.size = stored;

	/* a meta data writer in any state */
	MetaWriter m;
	memset(&m, 0, sizeof(m));
	buf_over(&m.offsets, m_mem, regions * 4);
	buf_over(&m.data, d_mem, used);
	m.active = true;
	m.crc = false;
	m.meta.regions = regions;
	m.meta.rows = vf_range(0, 1ull << 50);
	m.meta.size = vf_range(0, 1 << 30);
	m.meta.size_regions = vf_range(0, 1ull << 50);
	m.meta.size_regions_origin = vf_range(0, 1ull << 50);
	Meta was = m.meta;
	int k = vf_range(0, 3);
	uint32_t old = ((uint32_t*)m_mem)[k];
	uint32_t offset = vf_u32();

	meta_writer_add(&m, &w, offset);
	VF_REACH("meta writer");
	MetaRegion* ref = (MetaRegion*)(d_mem + used);
	VF_ENSURES(((uint32_t*)m_mem)[regions] == (uint32_t)used, "region index: the new entry is found behind the others");
	VF_ENSURES(k >= regions || ((uint32_t*)m_mem)[k] == old, "region index: earlier entries stay");
	VF_ENSURES(ref->offset == offset && ref->rows == 2, "region index: place and row count of the region");
	VF_ENSURES(ref->size == stored && ref->size_origin == header->size, "region index: stored and original size cover the whole region");
	VF_ENSURES(ref->size_min == (uint32_t)s1 && ref->size_max == (uint32_t)s2, "region index: size of the first and the last row");
	VF_ENSURES(((Row*)ref->data)->data[0] == s1 && ((Row*)(ref->data + s1))->data[0] == s2, "region index: first row, then last row");
	uint32_t entry = sizeof(MetaRegion) + s1 + s2;
	VF_ENSURES(buf_size(&m.data) == used + (int)entry && buf_size(&m.offsets) == regions * 4 + 4, "region index: entry size");
	VF_ENSURES(m.meta.regions == was.regions + 1 && m.meta.rows == was.rows + 2, "region index: totals of regions and rows");
	VF_ENSURES(m.meta.size == was.size + 4 + entry, "region index: total of the index");
	VF_ENSURES(m.meta.size_regions == was.size_regions + stored && m.meta.size_regions_origin == was.size_regions_origin + header->size, "region index: totals of the regions");
	VF_ENSURES(meta_writer_total(&m) == m.meta.size_regions + m.meta.size + sizeof(Meta), "region index: total of the branch");
}
VF_PROOF(meta_add)
{
	vf_init();
	switch (vf_range(0, 3)) {
	case 0: meta_add(4, 4, 0, 0);   break;
	case 1: meta_add(4, 9, 1, 52);  break;
	case 2: meta_add(12, 5, 3, 70); break;
	case 3: meta_add(5, 40, 4, 9);  break;
	}
}
