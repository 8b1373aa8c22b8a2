/* shared by the C20 and C21 units: a real write-ahead log in a scratch
 * directory, driven next to a list of the records that must be in it */
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>
#include <vf_env.h>
#include <ftw.h>

/* write faults: short transfers, interruptions, and a device that is full
 * after io_left more bytes */
static int64_t io_left = -1;
static int     io_short;
static ssize_t vf_writev(int fd, const struct iovec* v, int n)
{
	if (io_short && vf_range(0, 3) == 0)
	{
		errno = EINTR;
		return -1;
	}
	int64_t total = 0;
	for (int i = 0; i < n; i++)
		total += v[i].iov_len;
	int64_t can = total;
	if (io_short && total)
		can = 1 + vf_range(0, 100000) % total;
	if (io_left >= 0)
	{
		if (io_left == 0 && total)
		{
			errno = ENOSPC;
			return -1;
		}
		if (can > io_left)
			can = io_left;
		io_left -= can;
	}
	int64_t done = 0;
	for (int i = 0; i < n && done < can; i++)
	{
		size_t m = v[i].iov_len;
		if ((int64_t)m > can - done)
			m = can - done;
		if (m && write(fd, v[i].iov_base, m) != (ssize_t)m)
			_exit(9);
		done += m;
	}
	return done;
}
#define writev vf_writev
#include "os/vfs.c"
#undef writev
void notify_signal(Notify* self) { (void)self; }
#include "lib/crc.c"
#include "lib/uuid.c"
#include "wal/wal.c"
#include "wal/wal_cursor.c"

static Runtime rt;
static char    dir[256];
static Wal     wal;

typedef struct
{
	uint64_t lsn, file, offset, size;   /* where it must be */
	uint32_t count, ops;
	uint64_t hash;
	bool     damaged;
} Rec;
#define RECS 512
static Rec recs[RECS];
static int recs_count;
static uint64_t files[RECS];            /* id of every wal file */
static uint64_t files_size[RECS];
static int files_count;

static uint64_t mix(uint64_t h, const void* p, size_t n)
{
	for (size_t i = 0; i < n; i++)
		h = (h ^ ((uint8_t*)p)[i]) * 0x100000001b3ull;
	return h;
}
static int rm_one(const char* p, const struct stat* s, int t, struct FTW* f)
{
	(void)s; (void)t; (void)f;
	remove(p);
	return 0;
}
static void opt(Opt* o, int type, int64_t v) { o->type = type; o->integer = v; }
static void env_init(bool crc)
{
	vf_init();
	io_left = -1;
	io_short = vf_range(0, 4) == 0;
	am_runtime = &rt;
	rt.crc = vf_bool() && crc32_sse_supported() ? crc32_sse : crc32;
	opt(&rt.config.wal_crc, OPT_BOOL, crc);
	opt(&rt.config.wal_size, OPT_INT, 1 << 30);
	opt(&rt.config.wal_truncate, OPT_INT, 0);
	opt(&rt.config.wal_sync_on_create, OPT_BOOL, 0);
	opt(&rt.config.wal_worker, OPT_BOOL, 0);
	opt(&rt.state.lsn, OPT_INT, 0);
	opt(&rt.state.writes, OPT_INT, 0);
	opt(&rt.state.writes_bytes, OPT_INT, 0);
	opt(&rt.state.ops, OPT_INT, 0);
	const char* scratch = getenv("VF_SCRATCH");
	char path[600];
	if (! *dir)
	{
		snprintf(dir, sizeof(dir), "%s/vf20.XXXXXX", scratch ? scratch : ".");
		VF_REQUIRES(mkdtemp(dir) != NULL);
	}
	snprintf(path, sizeof(path), "%s/wal", dir);
	nftw(path, rm_one, 16, FTW_DEPTH | FTW_PHYS);
	rt.state.directory.type = OPT_STRING;
	str_set(&rt.state.directory.string, dir, strlen(dir));
	recs_count = files_count = 0;
	memset(&wal, 0, sizeof(wal));
	wal_init(&wal);
	wal_open(&wal);
	files[files_count] = 1;
	files_size[files_count++] = 0;
}
static char* wal_path(uint64_t id)
{
	static char path[600];
	snprintf(path, sizeof(path), "%s/wal/%" PRIu64, dir, id);
	return path;
}
static int file_of(uint64_t id)
{
	for (int i = 0; i < files_count; i++)
		if (files[i] == id)
			return i;
	return -1;
}

/* what a record must say, and what it says */
#define WMAX 3
static uint8_t rowmem[1 << 16];
static int     rowmem_used;
static Row* any_row(void)
{
	int size = vf_range(0, 20) ? vf_range(1, 60) : vf_range(1, 3000);
	int f, total = row_measure(1, size, &f);
	if (rowmem_used + total > (int)sizeof(rowmem))
		return NULL;
	Row* r = (Row*)(rowmem + rowmem_used);
	row_init(r, 1, f, total);
	uint8_t* p = row_data(r, 1);
	row_set(r, 0, p - (uint8_t*)r);
	uint64_t x = vf_u64();
	for (int i = 0; i < size; i++, x = x * 6364136223846793005ull + 1)
		p[i] = x >> 32;
	rowmem_used += total;
	return r;
}
/* hash of a record as it is read: commands in order with their data */
static bool rec_read(Record* r, Rec* to)
{
	uint8_t* pos = record_data(r);
	uint8_t* end = (uint8_t*)r + r->size;
	RecordCmd* cmd = record_cmd(r);
	uint64_t h = 1;
	for (uint32_t i = 0; i < r->count; i++, cmd++)
	{
		VF_ENSURES(pos + cmd->size <= end, "wal: commands stay inside of the record");
		if (opt_int_of(&config()->wal_crc) && ! record_validate_cmd(cmd, pos))
			return false;
		h = mix(h, &cmd->cmd, 1);
		h = mix(h, &cmd->id, sizeof(Uuid));
		h = mix(h, pos, cmd->size);
		if (record_cmd_is_dml(cmd))
			record_cmd_skip(cmd, &pos);
		else
			json_skip(&pos);
	}
	VF_ENSURES(pos == end, "wal: the record holds its commands and nothing else");
	to->hash = h;
	to->lsn = r->lsn;
	to->count = r->count;
	to->ops = r->ops;
	return true;
}

static Write    ws[WMAX];
static WriteLog wl[WMAX][2];
/* an append of one to three records; may be refused by the device */
static void append(bool may_fail)
{
	int n = vf_range(1, WMAX);
	if (recs_count + n > RECS)
		return;
	WriteList list;
	write_list_init(&list);
	rowmem_used = 0;
	Rec add[WMAX];
	int64_t bytes = 0;
	uint64_t offset = wal.current->file.size;
	uint64_t lsn = state_lsn();
	for (int w = 0; w < n; w++)
	{
		write_reset(&ws[w]);
		write_begin(&ws[w]);
		int logs = vf_range(0, 2);
		uint64_t h = 1, size = sizeof(Record);
		uint32_t count = 0, ops = 0;
		for (int l = 0; l < logs; l++)
		{
			WriteLog* g = &wl[w][l];
			write_log_reset(g);
			int rows = vf_range(1, 6);
			int cmd = -1, at = 0;
			Uuid id;
			uuid_init(&id);
			for (int r = 0; r < rows; r++)
			{
				if (vf_range(0, 9) == 0)
				{
					/* ddl operation */
					uint8_t* op = rowmem + rowmem_used;
					uint8_t* p = op;
					if (rowmem_used + 400 > (int)sizeof(rowmem))
						break;
					char text[300];
					memset(text, 'a' + r, sizeof(text));
					Str s;
					str_set(&s, text, vf_range(0, 300));
					json_write_string(&p, &s);
					rowmem_used = p - rowmem;
					int c = vf_bool() ? CMD_DDL : CMD_DDL_CREATE_INDEX;
					uint8_t c8 = c;
					write_log_add_op(g, c, op);
					Uuid none;
					uuid_init(&none);
					h = mix(h, &c8, 1);
					h = mix(h, &none, sizeof(Uuid));
					h = mix(h, op, p - op);
					size += (p - op) + sizeof(RecordCmd);
					count++;
					ops++;
					cmd = -1;
					continue;
				}
				Row* row = any_row();
				if (! row)
					break;
				int c = vf_bool() ? CMD_REPLACE : CMD_DELETE;
				Uuid t = { .a = vf_range(1, 2), .b = 7 };
				if (c != cmd || ! uuid_is(&t, &id))
				{
					/* rows of the same kind in a row share one command */
					uint8_t c8 = c;
					h = mix(h, &c8, 1);
					h = mix(h, &t, sizeof(Uuid));
					size += sizeof(RecordCmd);
					count++;
				}
				cmd = c;
				id = t;
				write_log_add(g, c, &t, row);
				h = mix(h, row, row_size(row));
				size += row_size(row);
				ops++;
				at++;
			}
			if (! write_log_empty(g))
				write_add(&ws[w], g);
		}
		add[w] = (Rec){ .lsn = ++lsn, .file = wal.current->id, .offset = offset, .size = size, .count = count, .ops = ops, .hash = h };
		VF_ENSURES(ws[w].header.size == size && ws[w].header.count == count && ws[w].header.ops == ops, "wal: the header announces size, commands and rows of the record");
		offset += size;
		bytes += size;
		write_list_add(&list, &ws[w]);
	}
	bool fails = may_fail && vf_range(0, 3) == 0;
	io_left = fails ? (int64_t)vf_range(0, bytes - 1) : -1;
	uint64_t was = state_lsn(), was_size = wal.current->file.size;
	bool failed = error_catch( wal_write(&wal, &list) );
	io_left = -1;
	VF_ENSURES(failed == fails, "wal: a write that could not be completed is reported, others are not");
	if (failed)
	{
		VF_ENSURES(state_lsn() == was, "wal: a failed write does not advance the lsn");
		VF_ENSURES(wal.current->file.size == was_size, "wal: a failed write leaves nothing behind");
		return;
	}
	VF_ENSURES(state_lsn() == lsn && list.lsn == lsn, "wal: every record has the next lsn");
	for (int w = 0; w < n; w++)
		recs[recs_count++] = add[w];
	files_size[files_count - 1] = offset;
	VF_ENSURES(wal.current->file.size == offset, "wal: file size");
}
static void rotate(void)
{
	if (wal.current->file.size == 0)
		return;
	uint64_t id = state_lsn() + 1;
	wal_create(&wal, id);
	files[files_count] = id;
	files_size[files_count++] = 0;
}
static void same_rec(Record* r, Rec* want)
{
	Rec got;
	VF_ENSURES(rec_read(r, &got), "wal: checksum of an intact record");
	VF_ENSURES(got.lsn == want->lsn && got.count == want->count && got.ops == want->ops && got.hash == want->hash && r->size == want->size,
	           "wal: a record reads back exactly as it was written");
}
/* read from lsn to the end */
static void read_from(uint64_t lsn)
{
	int at = 0;
	while (at < recs_count && recs[at].lsn < lsn)
		at++;
	WalCursor c;
	wal_cursor_init(&c);
	wal_cursor_open(&c, &wal, lsn, true, opt_int_of(&config()->wal_crc));
	if (lsn && (! files_count || lsn < files[0]))
	{
		VF_ENSURES(! wal_cursor_active(&c), "wal: a position before the first file is not in the log");
		wal_cursor_close(&c);
		return;
	}
	VF_ENSURES(wal_cursor_active(&c), "wal: cursor opens");
	if (vf_bool())
	{
		/* several records at once */
		while (at < recs_count)
		{
			uint64_t to = 0;
			int n = wal_cursor_readahead(&c, vf_range(1, 5000), &to, UINT64_MAX);
			VF_ENSURES(n == buf_size(&c.buf) && n > 0, "wal: readahead size");
			for (uint8_t* p = c.buf.start; p < c.buf.position; at++)
			{
				VF_ENSURES(at < recs_count, "wal: no record is added");
				same_rec((Record*)p, &recs[at]);
				p += ((Record*)p)->size;
			}
			VF_ENSURES(to == recs[at - 1].lsn, "wal: readahead reports the last lsn it read");
		}
	}
	for (; at < recs_count; at++)
	{
		VF_ENSURES(wal_cursor_next(&c), "wal: no record is missing");
		same_rec(wal_cursor_at(&c), &recs[at]);
	}
	VF_ENSURES(! wal_cursor_next(&c), "wal: nothing follows the last record");
	wal_cursor_close(&c);
}
static void drop_after(uint64_t lsn)
{
	while (recs_count && recs[recs_count - 1].lsn > lsn)
		recs_count--;
}
