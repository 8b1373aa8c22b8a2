//@proof write kind=proof unwind=2 timeout=200 covers=ring_write
//@proof read kind=proof unwind=2 timeout=200 covers=ring_read,ring_pending
//@proof threads kind=native fuzz=30 covers=ring_write,ring_read,ring_pending,ring_prepare,ring_init,ring_free
//@rewrite __asm__\("pause"\); ==> __CPROVER_assume(0);
//@link -lpthread
//@assume other threads only do what ring_write and ring_read are proved to do: rely of each proof is the guarantee of the other
//@assume memory orders: a release store followed by an acquire load of the value orders what was done before (C11)
#include <vf.h>
#ifdef VF_CBMC
#include <stdint.h>
#include <stdatomic.h>
/* every atomic step of the code under proof, with anything the other threads
 * may do before it. Spinning is the same as one such step. */
static uint64_t step_load(void*, int);
static uint64_t step_add(void*, uint64_t, int);
static void     step_store(void*, uint64_t, int);
#undef atomic_load_explicit
#undef atomic_store_explicit
#undef atomic_fetch_add_explicit
#define atomic_load_explicit(p, o) step_load((void*)(p), o)
#define atomic_store_explicit(p, v, o) step_store((void*)(p), v, o)
#define atomic_fetch_add_explicit(p, v, o) step_add((void*)(p), v, o)
#endif
#include <amelie_runtime>
#include <vf_env.h>

#ifdef VF_CBMC
enum { SIZE = 4 };
static Ring     ring;
static void*    ring_mem[SIZE];
static bool     consumer;
/* the slot claimed by the function under proof */
static bool     mine;
static uint64_t slot;
static bool     published;
static void*    data;
/* any other slot claimed, written and not read yet */
static uint64_t other;
static bool     other_set;
static void*    other_data;

#define CLAIM (*(uint64_t*)&ring.pos_claim)
#define READ  (*(uint64_t*)&ring.pos_read)
#define WRITE (*(uint64_t*)&ring.pos_write)

static bool acquires(int o)
{
	return o == memory_order_acquire || o == memory_order_acq_rel || o == memory_order_seq_cst || o == memory_order_consume;
}

static bool releases(int o)
{
	return o == memory_order_release || o == memory_order_acq_rel || o == memory_order_seq_cst;
}

static bool valid(void)
{
	return READ <= WRITE && WRITE <= CLAIM && WRITE <= READ + SIZE;
}

/* any number of steps of other producers, and of the consumer unless this is
 * the consumer */
static void others(void)
{
	uint64_t claim = vf_u64(), read = vf_u64(), write = vf_u64();
	VF_REQUIRES(claim >= CLAIM && claim < (1ull << 62) && write >= WRITE && read >= READ);
	if (consumer)
		VF_REQUIRES(read == READ);
	/* slots are published in order */
	if (mine && ! published)
		VF_REQUIRES(write <= slot);
	CLAIM = claim;
	READ  = read;
	WRITE = write;
	VF_REQUIRES(valid());
	/* producers write slots they claimed, when there is room for them */
	for (int i = 0; i < SIZE; i++)
	{
		uint64_t at = vf_u64();
		VF_REQUIRES((int)(at & (SIZE - 1)) == i);
		void* value = (void*)vf_u64();
		if (at < CLAIM && at < READ + SIZE && at >= WRITE && ! (mine && at == slot) && ! (other_set && at == other))
			ring_mem[i] = value;
		else
		{
			/* published since then: at has been written by others */
			if (! consumer && at < WRITE && at >= READ && ! (mine && at == slot) && ! (other_set && at == other))
				ring_mem[i] = value;
		}
	}
}

static uint64_t step_load(void* p, int order)
{
	others();
	if (p == (void*)&ring.pos_read && ! consumer)
		VF_ENSURES(acquires(order), "ring_write: sees that the slot has been read");
	if (p == (void*)&ring.pos_write && consumer)
		VF_ENSURES(acquires(order), "ring_read: sees what has been written");
	return *(uint64_t*)p;
}

static uint64_t step_add(void* p, uint64_t add, int order)
{
	others();
	VF_ENSURES(p == (void*)&ring.pos_claim && add == 1 && ! consumer && ! mine, "ring_write: claims one slot");
	slot = CLAIM;
	mine = true;
	/* another claimed slot */
	if (vf_bool())
	{
		other = vf_u64();
		VF_REQUIRES(other >= READ && other < CLAIM && other < READ + SIZE);
		other_set  = true;
		other_data = ring_mem[other & (SIZE - 1)];
	}
	CLAIM++;
	return slot;
}

static void check_other(void)
{
	if (other_set && other >= READ)
		VF_ENSURES(ring_mem[other & (SIZE - 1)] == other_data, "ring: what others wrote stays until it is read");
}

static void step_store(void* p, uint64_t value, int order)
{
	check_other();
	if (mine && ! published && slot < READ + SIZE)
		;
	others();
	check_other();
	if (consumer)
	{
		VF_ENSURES(p == (void*)&ring.pos_read && value == READ + 1 && value <= WRITE, "ring_read: takes one item there is");
		VF_ENSURES(releases(order), "ring_read: done with the slot before it is given back");
		READ = value;
		others();
		return;
	}
	VF_ENSURES(p == (void*)&ring.pos_write && mine && ! published, "ring_write: publishes once");
	VF_ENSURES(WRITE == slot && value == slot + 1, "ring_write: publishes in the order of claims");
	VF_ENSURES(slot < READ + SIZE, "ring_write: waits for room");
	VF_ENSURES(ring_mem[slot & (SIZE - 1)] == data, "ring_write: the item is there before it is published");
	VF_ENSURES(releases(order), "ring_write: the item is visible before it is published");
	WRITE = value;
	published = true;
}

static void make(void)
{
	ring.ring = ring_mem;
	ring.ring_size = SIZE;
	CLAIM = vf_range(0, 1ull << 61);
	READ  = vf_range(0, 1ull << 61);
	WRITE = vf_range(0, 1ull << 61);
	VF_REQUIRES(valid());
	for (int i = 0; i < SIZE; i++)
		ring_mem[i] = (void*)vf_u64();
}

VF_PROOF(write)
{
	vf_init();
	make();
	data = (void*)vf_u64();
	ring_write(&ring, data);
	VF_ENSURES(published, "ring_write: publishes the item");
	check_other();
	VF_REACH("written");
}

VF_PROOF(read)
{
	vf_init();
	make();
	consumer = true;
	bool empty = READ == WRITE;
	uint64_t at = READ;
	/* the item which is first, once it is published */
	other_set  = true;
	other      = at;
	other_data = ring_mem[at & (SIZE - 1)];
	VF_REQUIRES(other_data);
	if (! empty)
		VF_ENSURES(ring_pending(&ring), "ring_pending: something to read");
	void* item = ring_read(&ring);
	if (item == NULL)
	{
		VF_ENSURES(empty, "ring_read: reads an item there is");
		VF_ENSURES(READ == at, "ring_read: takes nothing");
		VF_REACH("empty");
	} else
	{
		VF_ENSURES(item == other_data, "ring_read: the item written first");
		VF_ENSURES(READ == at + 1, "ring_read: takes one item");
		VF_REACH("read");
	}
}
#else

#include <pthread.h>

static Ring  shared;
static int   producers, items;

static void* produce(void* arg)
{
	uintptr_t id = (uintptr_t)arg;
	for (uintptr_t i = 1; i <= (uintptr_t)items; i++)
		ring_write(&shared, (void*)(id << 32 | i));
	return NULL;
}

VF_PROOF(threads)
{
	vf_init();
	ring_init(&shared);
	producers = vf_range(1, 4);
	items = vf_range(1, 500);
	ring_prepare(&shared, 1 << vf_range(0, 6));
	VF_ENSURES(! ring_pending(&shared) && ring_read(&shared) == NULL, "ring_read: empty");
	pthread_t t[4];
	uintptr_t last[4] = { 0 };
	for (int i = 0; i < producers; i++)
		pthread_create(&t[i], NULL, produce, (void*)(uintptr_t)i);
	int64_t total = 0;
	while (total < (int64_t)producers * items)
	{
		if (! ring_pending(&shared))
		{
			sched_yield();
			continue;
		}
		uintptr_t item = (uintptr_t)ring_read(&shared);
		VF_ENSURES(item != 0, "ring_read: pending");
		uintptr_t id = item >> 32;
		VF_ENSURES(id < (uintptr_t)producers && (uint32_t)item == last[id] + 1, "ring: every item once, in the order of its producer");
		last[id]++;
		total++;
	}
	VF_ENSURES(! ring_pending(&shared) && ring_read(&shared) == NULL, "ring: nothing else");
	for (int i = 0; i < producers; i++)
		pthread_join(t[i], NULL);
	ring_free(&shared);
	VF_REACH("threads");
}
VF_PROOF(write) { vf_init(); VF_REACH("-"); }
VF_PROOF(read) { vf_init(); VF_REACH("-"); }
#endif
