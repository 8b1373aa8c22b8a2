ENV = r'''
#include <amelie_runtime>
#include "env.h"
'''
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, libs=''):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, libs=libs))

seed('date_leap_end', 'C06', [('amelie/runtime/lib/date.c',
 'int d  = (((4 * c) + 3) / 1461);', 'int d  = ((4 * c) / 1461);')], ENV + r'''
#include "lib/date.h"
#include "lib/date.c"
static int got;
static void set(void* arg) { Str s; str_set_cstr(&s, arg); got = date_set(&s); }
int main(void)
{
	demo_init();
	static int days[] = { 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	for (int y = 1996; y < 2005; y++)
		for (int m = 1; m <= 12; m++)
			for (int d = 1; d <= days[m - 1] - (m == 2 && y % 4); d++)
			{
				char a[32], b[32];
				sprintf(a, "%04d-%02d-%02d", y, m, d);
				CHECK(! demo_fails(set, a));
				date_get(got, b, sizeof(b));
				CHECK(! strcmp(a, b));
			}
	return 0;
}
''', 'a date at the end of February next to a leap year', 'existing dates are refused and day numbers are shown as another date')

seed('pwritev_again', 'C27', [('amelie/runtime/os/vfs.c',
 'r = pwritev(fd, v, n, offset + size);', 'r = pwritev(fd, v, n, offset);')], ENV + r'''
static ssize_t short_pwritev(int fd, const struct iovec* v, int n, off_t off)
{
	(void)n;
	return pwrite(fd, v->iov_base, v->iov_len > 3 ? 3 : v->iov_len, off);
}
#include <sys/file.h>
#define pwritev short_pwritev
#include "os/vfs.c"
int main(void)
{
	demo_init();
	int fd = open("file", O_CREAT|O_RDWR, 0644);
	struct iovec v[2] = { { "hello ", 6 }, { "world", 5 } };
	struct iovec c[2] = { v[0], v[1] };
	CHECK(vfs_pwritev(fd, 2, c, 2) == 11);
	char data[32] = { 0 };
	CHECK(pread(fd, data, 31, 2) == 11 && ! strcmp(data, "hello world"));
	return 0;
}
''', 'a vectored write which the operating system finishes only in part', 'the rest overwrites the beginning')

seed('lock_call', 'C22', [('amelie/runtime/runtime/lock_mgr.h',
 '''		       !set[LOCK_EXCLUSIVE_RO] &&
		       !set[LOCK_CALL];''', '''		       !set[LOCK_EXCLUSIVE_RO];''')], ENV + r'''
int main(void)
{
	demo_init();
	Relation rel;
	memset(&rel, 0, sizeof(rel));
	CHECK(lock_resolve(&rel, LOCK_EXCLUSIVE));
	rel.lock_set[LOCK_CALL] = 1;
	CHECK(! lock_resolve(&rel, LOCK_EXCLUSIVE));
	return 0;
}
''', 'a function is dropped or replaced by one session while another one executes it', 'an exclusive lock is granted together with a call lock')

seed('commit_newest_first', 'C18', [('amelie/db/transaction/commit.c',
 '''	// commit all transactions <= id
	list_foreach_safe(&self->list)''', '''	// commit all transactions <= id
	list_foreach_reverse_safe(&self->list)''')], ENV + r'''
#include <amelie_row.h>
#include <amelie_transaction.h>
#include "transaction/commit.c"
static int order[8], n;
static void on_commit(Log* log, LogOp* op) { order[n++] = (int)(intptr_t)op->iface_arg; }
static void on_abort(Log* log, LogOp* op) { abort(); }
static LogIf iface = { on_commit, on_abort };
int main(void)
{
	demo_init();
	TrList list;
	TrCache cache;
	tr_list_init(&list);
	tr_cache_init(&cache);
	for (int i = 1; i <= 4; i++)
	{
		Tr* tr = tr_create(&cache);
		tr->id = i;
		tr_begin(tr);
		log_row(&tr->log, CMD_REPLACE, &iface, (void*)(intptr_t)i, NULL, NULL);
		tr_list_add(&list, tr);
	}
	tr_commit_list(&list, &cache, 3);
	CHECK(n == 3 && list.list_count == 1);
	CHECK(order[0] == 1 && order[1] == 2 && order[2] == 3);
	return 0;
}
''', 'several prepared transactions committed at once', 'transactions are committed newest first')

seed('ring_full', 'C09', [('amelie/runtime/base/ring.h',
 'while (slot >= atomic_load_explicit(&self->pos_read, memory_order_acquire) + self->ring_size) {',
 'while (slot > atomic_load_explicit(&self->pos_read, memory_order_acquire) + self->ring_size) {')], ENV + r'''
#include <pthread.h>
#include <unistd.h>
static Ring ring;
static void* writer(void* arg)
{
	for (uintptr_t i = 1; i <= 6; i++)
		ring_write(&ring, (void*)i);
	return NULL;
}
int main(void)
{
	demo_init();
	ring_init(&ring);
	ring_prepare(&ring, 4);
	pthread_t id;
	pthread_create(&id, NULL, writer, NULL);
	usleep(300000);
	for (uintptr_t i = 1; i <= 6; )
	{
		void* p = ring_read(&ring);
		if (! p)
			continue;
		CHECK(p == (void*)i);
		i++;
	}
	return 0;
}
''', 'a writer one place ahead of a full ring', 'the oldest message which is not read yet is overwritten')

seed('json_int16_wide', 'C02', [('amelie/runtime/json/json.h',
 '''	if (value <= INT16_MAX)
	{
		*data = JSON_INT16;
		*(int16_t*)''', '''	if (value <= UINT16_MAX)
	{
		*data = JSON_INT16;
		*(int16_t*)'''),
 ('amelie/runtime/json/json.h', '''	if (value <= INT16_MAX)
		return json_size16();
	if (value <= INT32_MAX)
		return json_size32();
	return json_size64();
}

//  integer''', '''	if (value <= UINT16_MAX)
		return json_size16();
	if (value <= INT32_MAX)
		return json_size32();
	return json_size64();
}

//  integer''')], ENV + r'''
int main(void)
{
	demo_init();
	for (int64_t v = -70000; v < 70000; v++)
	{
		uint8_t data[16], *pos = data;
		json_write_integer(&pos, v);
		CHECK(pos - data == json_size_integer(v));
		int64_t r;
		pos = data;
		json_read_integer(&pos, &r);
		CHECK(r == v);
	}
	return 0;
}
''', 'integers between 32768 and 65535; size and writer agree with each other', 'the integer reads back negative')

seed('crc_table', 'C28', [('amelie/runtime/lib/crc.c',
 '0x00000000, 0xDD45AAB8, 0xBF672381, 0x62228939, 0x7B2231F3,', '0x00000000, 0xDD45AAB8, 0xBF672381, 0x62228939, 0x7B2231F2,')], ENV + r'''
#include "lib/crc.c"
int main(void)
{
	demo_init();
	uint8_t data[64];
	unsigned seed = 1;
	for (int round = 0; round < 20000; round++)
	{
		for (int i = 0; i < 64; i++)
			data[i] = (seed = seed * 1103515245 + 12345) >> 16;
		int n = round % 65;
		uint32_t crc = 7, want = 7;
		crc = crc32(crc, data, n);
		for (int i = 0; i < n; i++)
		{
			want ^= data[i];
			for (int k = 0; k < 8; k++)
				want = want & 1 ? (want >> 1) ^ 0x82F63B78 : want >> 1;
		}
		CHECK(crc == want);
	}
	return 0;
}
''', 'a machine without SSE 4.2, one byte value at one position of eight', 'checksums differ from those of other machines')

seed('record_header', 'C20', [('amelie/db/transaction/record.h',
 'crc = runtime()->crc(crc, &self->lsn, sizeof(*self) - sizeof(self->crc));', 'crc = runtime()->crc(crc, &self->lsn, sizeof(self->lsn));'),
 ('amelie/db/transaction/write.h', '''header->crc = runtime()->crc(header->crc, &header->lsn,
		                             sizeof(Record) - sizeof(uint32_t));''', '''header->crc = runtime()->crc(header->crc, &header->lsn,
		                             sizeof(header->lsn));''')], ENV + r'''
#include <amelie_row.h>
#include <amelie_transaction.h>
static uint32_t sum(uint32_t crc, const void* p, int n)
{
	const uint8_t* d = p;
	crc = ~crc;
	for (int i = 0; i < n; i++)
	{
		crc ^= d[i];
		for (int k = 0; k < 8; k++)
			crc = crc & 1 ? (crc >> 1) ^ 0x82F63B78 : crc >> 1;
	}
	return ~crc;
}
int main(void)
{
	demo_init();
	static Runtime rt;
	am_runtime = &rt;
	rt.crc = sum;
	rt.config.wal_crc.integer = 1;
	Write write;
	write_init(&write);
	write_begin(&write);
	WriteLog log;
	write_log_init(&log);
	RecordCmd cmd = { .cmd = CMD_DDL, .size = 0 };
	buf_write(&log.meta, &cmd, sizeof(cmd));
	write_add(&write, &log);
	write_end(&write, 7);
	uint8_t data[256];
	Record* r = (Record*)data;
	memcpy(data, &write.header, sizeof(Record));
	memcpy(data + sizeof(Record), log.meta.start, sizeof(cmd));
	CHECK(record_validate(r));
	r->ops++;
	CHECK(! record_validate(r));
	r->ops--;
	r->size += 5;
	CHECK(! record_validate(r));
	return 0;
}
''', 'damage of the size or the number of operations in a record header; the writer and the reader agree with each other', 'a damaged record is accepted as valid')
