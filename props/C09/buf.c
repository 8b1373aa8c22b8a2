//@proof write kind=bounded unwind=34 timeout=200 bound=buffers_of_up_to_16_bytes,_writes_of_up_to_16_bytes covers=buf_reserve,buf_write,buf_append,buf_advance,buf_size,buf_capacity,buf_size_unused
//@proof frame kind=proof unwind=2 timeout=200 covers=buf_reserve,buf_emplace,buf_truncate,buf_reset,buf_empty
//@proof history kind=native fuzz=20000 covers=buf_init,buf_reserve,buf_write,buf_write_buf,buf_emplace,buf_printf,buf_truncate,buf_reset,buf_write_str,buf_str
//@proof cache kind=bounded unwind=5 timeout=200 bound=3_buffers covers=buf_cache_push,buf_cache_pop,buf_cache_create,buf_free,buf_ref
//@proof pool kind=native fuzz=5000 covers=buf_mgr_create,buf_cache_create,buf_cache_push,buf_cache_pop,buf_cache_free,buf_free,buf_ref
//@proof arena kind=proof unwind=2 timeout=200 covers=arena_allocate
//@proof arenas kind=native fuzz=5000 covers=arena_allocate,arena_reset,arena_free,arena_init
#include <vf.h>
#ifdef VF_CBMC
#include <stdlib.h>
/* realloc: a new block with the contents of the old one */
static size_t grown;
static void*  vf_realloc(void*, size_t);
#define realloc(p, n) vf_realloc(p, n)
#endif
#include <amelie_runtime>
#include <vf_env.h>

#ifdef VF_CBMC
#undef realloc
static size_t old_size;
static bool   copy;
static void* vf_realloc(void* p, size_t n)
{
	VF_ENSURES(n > old_size && n <= INT32_MAX, "buf_reserve: grows");
	grown = n;
	uint8_t* r = malloc(n);
	VF_REQUIRES(r);
	if (copy)
		for (size_t i = 0; i < old_size; i++)
			r[i] = ((uint8_t*)p)[i];
	return r;
}

VF_PROOF(write)
{
	vf_init();
	copy = true;
	int cap = vf_range(1, 16), used = vf_range(0, 16), n = vf_range(0, 16);
	VF_REQUIRES(used <= cap);
	static uint8_t mem[16], add[16], before[16];
	for (int i = 0; i < 16; i++)
	{
		mem[i] = before[i] = vf_u8();
		add[i] = vf_u8();
	}
	uint8_t* start = malloc(cap);
	VF_REQUIRES(start);
	for (int i = 0; i < cap; i++)
		start[i] = mem[i];
	Buf buf;
	buf_init(&buf);
	buf.start = start;
	buf.position = start + used;
	buf.end = start + cap;
	old_size = cap;
	buf_write(&buf, add, n);
	VF_ENSURES(buf_size(&buf) == used + n, "buf_write: size");
	VF_ENSURES(buf_size(&buf) <= buf_capacity(&buf) && buf_size_unused(&buf) == buf_capacity(&buf) - buf_size(&buf), "buf_write: fits");
	VF_ENSURES(grown ? buf_capacity(&buf) == (int)grown : buf.start == start && buf_capacity(&buf) == cap, "buf_write: capacity is what has been allocated");
	int i = vf_range(0, 31);
	VF_REQUIRES(i < used + n);
	VF_ENSURES(buf.start[i] == (i < used ? before[i] : add[i - used]), "buf_write: appends, and keeps what is there");
	if (grown)
		VF_REACH("grown");
	else
		VF_REACH("fits");
}
#else
VF_PROOF(write) { vf_init(); VF_REACH("-"); }
#endif

/* any sizes: reserved memory is inside of the allocation */
VF_PROOF(frame)
{
	vf_init();
#ifdef VF_CBMC
	enum { MAX = 1 << 29 };
#else
	enum { MAX = 1 << 12 };
#endif
	int cap = vf_range(1, MAX), used = vf_range(0, MAX), n = vf_range(0, MAX);
	VF_REQUIRES(used <= cap);
	uint8_t* start = malloc(cap);
	VF_REQUIRES(start);
	Buf buf;
	buf_init(&buf);
	buf.start = start;
	buf.position = start + used;
	buf.end = start + cap;
#ifdef VF_CBMC
	old_size = cap;
#endif
	uint8_t** pos = buf_reserve(&buf, n);
	VF_ENSURES(*pos == buf.position && buf_size(&buf) == used, "buf_reserve: position");
	VF_ENSURES(buf_size_unused(&buf) >= n, "buf_reserve: room");
#ifdef VF_CBMC
	VF_ENSURES(__CPROVER_w_ok(buf.position, n), "buf_reserve: room is memory");
#endif
	uint8_t* at = buf_emplace(&buf, n);
	VF_ENSURES(at == buf.start + used && buf_size(&buf) == used + n, "buf_emplace");
	buf_truncate(&buf, n);
	VF_ENSURES(buf_size(&buf) == used, "buf_truncate");
	VF_ENSURES(buf_empty(&buf) == (used == 0), "buf_empty");
	buf_reset(&buf);
	VF_ENSURES(buf_size(&buf) == 0 && buf_empty(&buf) && buf_capacity(&buf) >= cap, "buf_reset");
	VF_NATIVE_ONLY(free(buf.start);)
	VF_REACH("reserved");
}

#ifdef VF_CBMC
VF_PROOF(cache)
{
	vf_init();
	BufCache cache;
	buf_cache_init(&cache, 8);
	/* two buffers in the cache */
	static Buf bufs[3];
	static uint8_t mem[3][4];
	for (int i = 0; i < 3; i++)
	{
		buf_init(&bufs[i]);
		bufs[i].start = bufs[i].position = mem[i];
		bufs[i].end = mem[i] + 4;
		bufs[i].cache = &cache;
	}
	bufs[2].position += vf_range(0, 4);
	bool shared = vf_bool();
	buf_cache_push(&cache, &bufs[0]);
	buf_cache_push(&cache, &bufs[1]);
	if (shared)
		buf_ref(&bufs[2]);
	buf_free(&bufs[2]);
	if (shared)
	{
		VF_ENSURES(cache.cache != &bufs[2], "buf_free: a referenced buffer stays in use");
		buf_free(&bufs[2]);
	}
	Buf* a = buf_cache_create(&cache, 4);
	Buf* b = buf_cache_pop(&cache);
	Buf* c = buf_cache_pop(&cache);
	VF_ENSURES(a != b && a != c && b != c, "buf_cache: no buffer is handed out twice");
	VF_ENSURES(a >= bufs && a < bufs + 3 && b >= bufs && b < bufs + 3 && c >= bufs && c < bufs + 3, "buf_cache: hands out what was given back");
	VF_ENSURES(buf_empty(a) && buf_size_unused(a) >= 4, "buf_cache_create: an empty buffer");
	VF_ENSURES(buf_cache_pop(&cache) == NULL, "buf_cache_pop: nothing is left");
	VF_REACH("cache");
}

/* any page in any state */
VF_PROOF(arena)
{
	vf_init();
	Arena arena;
	size_t page_size = vf_range(1, 4096), used = vf_range(0, 4096), size = vf_range(0, 4096);
	VF_REQUIRES(used <= page_size && size <= page_size);
	arena_init(&arena, page_size);
	ArenaPage* page = malloc(sizeof(ArenaPage) + page_size), *cached = malloc(sizeof(ArenaPage) + page_size);
	VF_REQUIRES(page && cached);
	bool has = vf_bool(), has_cached = vf_bool();
	if (has)
	{
		page->used = used;
		page->prev = NULL;
		arena.list = page;
		arena.list_count = 1;
	}
	if (has_cached)
	{
		cached->used = vf_range(0, 4096);
		cached->prev = NULL;
		arena.list_cache = cached;
		arena.list_cache_count = 1;
	}
	char* p = arena_allocate(&arena, size);
	VF_ENSURES(__CPROVER_w_ok(p, size), "arena_allocate: memory of the size asked for");
	VF_ENSURES(arena.list && p >= arena.list->data && p + size == arena.list->data + arena.list->used && arena.list->used <= page_size, "arena_allocate: taken from the page");
	if (has && arena.list == page)
		VF_ENSURES(p == page->data + used, "arena_allocate: behind what is in use");
	else
	{
		VF_ENSURES(! has || (page->used == used && arena.list->prev == page), "arena_allocate: full pages are kept");
		VF_ENSURES(p == arena.list->data, "arena_allocate: new page");
		VF_ENSURES(arena.list_count == (has ? 2 : 1), "arena_allocate: pages are counted");
		VF_ENSURES(! has_cached || (arena.list == cached && arena.list_cache == NULL && arena.list_cache_count == 0), "arena_allocate: pages are used again");
	}
	VF_REACH("allocated");
}
#else
VF_PROOF(cache) { vf_init(); VF_REACH("-"); }
VF_PROOF(arena) { vf_init(); VF_REACH("-"); }

VF_PROOF(history)
{
	vf_init();
	Buf buf, other;
	buf_init(&buf);
	buf_init(&other);
	uint8_t* model = malloc(1 << 16);
	int size = 0;
	int steps = vf_range(1, 60);
	while (steps-- > 0)
	{
		uint8_t add[400];
		int n = vf_range(0, 15) ? vf_range(0, 20) : vf_range(0, 400);
		for (int i = 0; i < n; i++)
			add[i] = vf_range(1, 255);
		uint8_t* src = malloc(n ? n : 1);
		memcpy(src, add, n);
		bool appended = true;
		switch (vf_range(0, 12)) {
		case 0: buf_write(&buf, src, n); break;
		case 1: memcpy(buf_emplace(&buf, n), src, n); break;
		case 2: { Str s; str_set_u8(&s, src, n); buf_write_str(&buf, &s); break; }
		case 3: buf_printf(&buf, "%.*s", n, (char*)src); break;
		case 4: buf_reset(&other); buf_write(&other, src, n); buf_write_buf(&buf, &other); break;
		case 5: buf_reserve(&buf, n); buf_append(&buf, src, n); break;
		case 6: buf_reserve(&buf, n); for (int i = 0; i < n; i++) buf_append_u8(&buf, src[i]); break;
		case 7: { int8_t v = add[0]; n = n ? 1 : 0; if (n) buf_write_i8(&buf, v); break; }
		case 8: if (n < 8) { appended = false; break; } n = 8; { int64_t v; memcpy(&v, add, 8); buf_write_i64(&buf, v); } break;
		case 9: if (n < 4) { appended = false; break; } n = 4; { int32_t v; memcpy(&v, add, 4); buf_write_i32(&buf, v); } break;
		case 10: if (n < 2) { appended = false; break; } n = 2; { int16_t v; memcpy(&v, add, 2); buf_write_i16(&buf, v); } break;
		case 11: n = n > size ? size : n; buf_truncate(&buf, n); size -= n; appended = false; break;
		default: appended = false; if (vf_range(0, 9) == 0) { buf_reset(&buf); size = 0; } break;
		}
		free(src);
		if (appended)
		{
			memcpy(model + size, add, n);
			size += n;
		}
		Str s;
		buf_str(&buf, &s);
		VF_ENSURES(buf_size(&buf) == size && str_size(&s) == size && (! size || ! memcmp(model, buf.start, size)), "buf: exactly what was written");
		VF_ENSURES(buf_empty(&buf) == (size == 0) && buf_capacity(&buf) >= size, "buf: size");
	}
	buf_free_memory(&buf);
	buf_free_memory(&other);
	free(model);
	VF_REACH("history");
}

VF_PROOF(pool)
{
	vf_init();
	BufMgr mgr;
	buf_mgr_init(&mgr);
	Buf* used[16] = { 0 };
	int  refs[16] = { 0 };
	int steps = vf_range(1, 100);
	while (steps-- > 0)
	{
		int i = vf_range(0, 15);
		if (! used[i])
		{
			int n = vf_range(0, 3) ? vf_range(0, 100) : vf_range(0, 70000);
			used[i] = buf_mgr_create(&mgr, n);
			refs[i] = 0;
			VF_ENSURES(buf_empty(used[i]) && buf_size_unused(used[i]) >= n, "buf_mgr_create: an empty buffer with room");
			for (int j = 0; j < 16; j++)
				VF_ENSURES(j == i || used[j] != used[i], "buf_mgr_create: not in use");
			n = vf_range(0, n);
			memset(buf_emplace(used[i], n), i, n);
			continue;
		}
		for (int j = 0; j < buf_size(used[i]); j++)
			VF_ENSURES(used[i]->start[j] == i, "buf_mgr: contents of a buffer in use stay");
		if (vf_range(0, 3) == 0)
		{
			buf_ref(used[i]);
			refs[i]++;
		} else
		{
			buf_free(used[i]);
			if (refs[i]-- == 0)
				used[i] = NULL;
		}
		for (int j = 0; j < 8; j++)
			for (Buf* b = mgr.cache[j].cache; b; b = b->cache_next)
				VF_ENSURES(buf_capacity(b) < 32 * 1024, "buf_cache: large buffers are not kept");
	}
	for (int i = 0; i < 16; i++)
		if (used[i])
			for (int j = 0; j <= refs[i]; j++)
				buf_free(used[i]);
	buf_mgr_free(&mgr);
	VF_REACH("pool");
}

VF_PROOF(arenas)
{
	vf_init();
	Arena arena;
	int page = vf_range(16, 300);
	arena_init(&arena, page);
	char* used[200];
	int   sizes[200], count = 0;
	int steps = vf_range(1, 200);
	for (int k = 0; k < steps; k++)
	{
		if (vf_range(0, 40) == 0)
		{
			arena_reset(&arena);
			count = 0;
			VF_ENSURES(arena.list_count == 0, "arena_reset");
			continue;
		}
		int n = vf_range(0, 5) ? vf_range(0, 16) : vf_range(0, page);
		used[count] = arena_allocate(&arena, n);
		sizes[count] = n;
		memset(used[count], count, n);
		count++;
		for (int i = 0; i < count; i++)
			for (int j = 0; j < sizes[i]; j++)
				VF_ENSURES(used[i][j] == (char)i, "arena: memory in use is handed out once");
		int pages = 0;
		for (ArenaPage* p = arena.list; p; p = p->prev)
			pages++;
		VF_ENSURES(pages == arena.list_count, "arena: pages are counted");
	}
	arena_free(&arena);
	VF_REACH("arenas");
}
#endif
