//@proof follow kind=proof unwind=3 covers=sequence_sync,part_sync_sequence
//@proof next kind=proof unwind=3 covers=sequence_next,sequence_add,sequence_set,sequence_get
//@flags -DVF_NO_REALLOC
//@rewrite (uint16_t columns;\s+uint8_t data\[)\] ==> \g<1>40]
//@assume a spinlock is a mutual exclusion lock (its steps are atomic); other partitions follow their own rows at the same time, through the same functions
#include <vf.h>
/* the points where the lock of the sequence is taken and released (other
 * partitions may run before the one and after the other) */
static inline uint64_t vf_acquire(volatile uint64_t*, uint64_t);
static inline void     vf_release(volatile uint64_t*);
#define __sync_lock_test_and_set(p, v) vf_acquire((volatile uint64_t*)(p), (v))
#define __sync_lock_release(p)         vf_release((volatile uint64_t*)(p))
#include <amelie_runtime>
#include <amelie_row.h>
#include "transaction/limit.h"
#include "transaction/record.h"
#include "transaction/write_log.h"
#ifdef VF_CBMC
#undef defer
#define defer(a, b) do { } while (0)
#endif
#include "part/part_op.c"
#include "transaction/commit.c"
#include "heap/heap.c"
#include "os/vfs.c"
#include <vf_env.h>

static Sequence seq;
static int      held;
static uint64_t at_lock;

/* what other partitions do to the sequence while this one does not hold the
 * lock: it only grows */
static void others(void)
{
	uint64_t more = vf_u64();
	VF_REQUIRES(more >= seq.value);
	seq.value = more;
}
static inline uint64_t vf_acquire(volatile uint64_t* p, uint64_t v)
{
	uint64_t was = *p;
	if ((volatile uint64_t*)&seq.lock == p)
	{
		others();
		at_lock = seq.value;
		held++;
		*p = v;
		return 0;
	}
	*p = v;
	return was;
}
static inline void vf_release(volatile uint64_t* p)
{
	if ((volatile uint64_t*)&seq.lock == p)
	{
		VF_ENSURES(held == 1, "sequence: the lock is released by its owner");
		held = 0;
	}
	*p = 0;
}

static struct { Row row; uint8_t pad[40]; } row_mem;
VF_PROOF(follow)
{
	vf_init();
	sequence_init(&seq);
	seq.value = at_lock = vf_u64();
	VF_REQUIRES(seq.value <= INT64_MAX);
	static Columns columns;
	static Column  column;
	static PartArg arg;
	static Part    part;
	arg.seq  = &seq;
	part.arg = &arg;
	column.order = vf_range(0, 1);
	column.type  = TYPE_INT;
	column.type_size = vf_bool() ? 4 : 8;
	columns.identity = vf_range(0, 4) ? &column : NULL;
	int f, total = row_measure(2, 16, &f);
	Row* row = &row_mem.row;
	row_init(row, 2, f, total);
	uint8_t* p = row_data(row, 2);
	row_set(row, 0, p - (uint8_t*)row);
	row_set(row, 1, p + 8 - (uint8_t*)row);
	int64_t value = vf_i64();
	if (column.type_size == 4)
		value = (int32_t)value;
	VF_REQUIRES(value < INT64_MAX);
	/* what follows a 4 byte value is not part of it */
	int64_t other = vf_i64();
	*(int64_t*)p = *(int64_t*)(p + 8) = other;
	if (column.type_size == 4)
		*(int32_t*)(p + column.order * 8) = value;
	else
		*(int64_t*)(p + column.order * 8) = value;
	part_sync_sequence(&part, row, &columns);
	VF_REACH("followed");
	uint64_t expect = at_lock;
	if (columns.identity && value >= 0 && (uint64_t)value + 1 > expect)
		expect = (uint64_t)value + 1;
	VF_ENSURES(held == 0, "sequence: the lock is released");
	VF_ENSURES(seq.value == expect, "sequence: the next value is above the one of the row and the one of any other row");
}
VF_PROOF(next)
{
	vf_init();
	sequence_init(&seq);
	VF_ENSURES(sequence_get(&seq) == 0, "sequence: starts at zero");
	uint64_t start = vf_range(0, INT64_MAX - 1);
	sequence_set(&seq, start);
	VF_REACH("next");
	VF_ENSURES(sequence_get(&seq) == start, "sequence: set");
	VF_ENSURES(sequence_next(&seq) == start, "sequence: the value set is handed out next");
	uint64_t more = vf_u64();
	VF_REQUIRES(more > start);
	seq.value = more;
	uint64_t v = sequence_next(&seq);
	VF_ENSURES(v == more && sequence_get(&seq) == more + 1, "sequence: no value is handed out twice");
	int n = vf_range(0, INT32_MAX);
	VF_ENSURES(sequence_add(&seq, n) == more + 1 && sequence_get(&seq) == more + 1 + n, "sequence: a range of values is taken as a whole");
	sequence_free(&seq);
}
