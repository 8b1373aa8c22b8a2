//@proof pread unwind=1 covers=wal_file_pread,wal_file_eof
//@proof log_add kind=bounded bound=logs_of_up_to_three_commands_and_four_rows,_rows_up_to_60_bytes unwind=3 covers=write_log_add,write_log_add_op
//@proof write_add kind=bounded bound=records_of_up_to_four_logs unwind=3 covers=write_begin,write_add,write_end
//@proof roundtrip kind=native bound=two_logs_of_up_to_two_commands_of_one_or_two_rows covers=record_validate,record_validate_cmd,record_cmd_skip,write_log_add,write_add,write_end
//@flags -DVF_NO_REALLOC -DVF_BYTE_COPY=64
//@rewrite (uint16_t columns;\s+uint8_t data\[)\] ==> \g<1>8]
//@rewrite sizeof\(Row\) ==> __builtin_offsetof(Row, data)
//@assume record: the checksum is any streaming function crc(crc(h, a), b) = crc(h, ab) (C28)
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <vf_env.h>
static void vf_file_pread_buf(File*, Buf*, int, uint64_t);
#define file_pread_buf vf_file_pread_buf
#include "wal/wal_file.h"
#undef file_pread_buf

static Runtime rt;
static void env(bool crc)
{
	vf_init();
	am_runtime = &rt;
	rt.config.wal_crc.type = OPT_BOOL;
	rt.config.wal_crc.integer = crc;
}
#define CAP 512
static uint8_t b1[CAP] __attribute__((aligned(8))), b2[CAP] __attribute__((aligned(8))), b3[CAP] __attribute__((aligned(8))), b4[CAP] __attribute__((aligned(8))), b5[CAP] __attribute__((aligned(8)));
static inline void over(Buf* buf, uint8_t* mem)
{
	buf_init(buf);
	buf->start    = mem;
	buf->position = mem;
	buf->end      = mem + CAP - 128;
}

/* ---- reading a record back: any file size, any position, any header */
static uint64_t p_size, p_offset, p_reads, p_at[2], p_len[2];
static uint32_t p_record;
static void vf_file_pread_buf(File* file, Buf* buf, int size, uint64_t offset)
{
	VF_ENSURES(size >= 0, "wal read: a size that is not negative");
	VF_ENSURES(offset <= file->size && (uint64_t)size <= file->size - offset, "wal read: never reads behind the end of the file");
	VF_ENSURES(p_reads < 2, "wal read: header, then body");
	p_at[p_reads]  = offset;
	p_len[p_reads] = size;
	if (p_reads++ == 0)
	{
		VF_ENSURES(size == sizeof(Record), "wal read: the header first");
		((Record*)buf->position)->size = p_record;
		buf_advance(buf, size);
	}
}
VF_PROOF(pread)
{
	env(true);
	WalFile f;
	f.id = 1;
	file_init(&f.file);
	f.file.size = vf_range(0, 1ull << 60);
	p_offset = vf_range(0, 1ull << 60);
	VF_REQUIRES(p_offset <= f.file.size);
	/* records fit a signed 32-bit size */
	p_record = vf_range(0, INT32_MAX);
	p_reads = 0;
	Buf buf;
	over(&buf, b1);
	int used = vf_range(0, 64);
	buf.position += used;
	VF_MAY_THROW(p_record < sizeof(Record));
	bool ok = wal_file_pread(&f, p_offset, &buf);
	VF_REACH("pread");
	uint64_t left = f.file.size - p_offset;
	if (left < sizeof(Record))
	{
		VF_ENSURES(! ok && p_reads == 0 && buf_size(&buf) == used, "wal read: a torn header is the end of the file");
		return;
	}
	VF_ENSURES(p_at[0] == p_offset, "wal read: the header is read at the position");
	VF_ENSURES(ok == (p_record <= left), "wal read: a record is returned exactly when all of it is in the file");
	if (! ok)
		VF_ENSURES(p_reads == 1 && buf_size(&buf) == used, "wal read: nothing of a torn record is kept");
	else
		VF_ENSURES(p_reads == 2 && p_at[1] == p_offset + sizeof(Record) && p_len[1] == p_record - sizeof(Record), "wal read: header and body are read completely");
}

/* ---- one more row or operation, in any state of the log */
static void* c_ptr;
static int   c_len, c_calls;
static uint32_t c_prev, c_result;
static uint32_t one_crc(uint32_t prev, void* p, int n)
{
	c_prev = prev;
	c_ptr  = p;
	c_len  = n;
	c_calls++;
	return c_result;
}
static void log_add(int commands, int iovs)
{
	bool crc = vf_bool();
	env(crc);
	rt.crc = (void*)one_crc;
	c_calls = 0;
	c_result = vf_u32();
	WriteLog g;
	write_log_init(&g);
	over(&g.meta, b1);
	over(&g.iov.iov, b2);
	g.meta.position += commands * sizeof(RecordCmd);
	g.iov.iov.position += iovs * sizeof(struct iovec);
	g.iov.iov_count = iovs;
	g.iov.size = vf_range(0, 1 << 20);
	int was_size = g.iov.size;
	RecordCmd* list = (RecordCmd*)b1;
	struct iovec* iov = (struct iovec*)b2;
	RecordCmd last = { 0 }, first = { 0 };
	uint64_t ida = vf_u64(), idb = vf_u64();
	uint8_t  cmd0 = vf_range(0, 3);
	uint32_t size0 = vf_range(0, 1 << 20), crc0 = vf_u32();
	if (commands)
	{
		RecordCmd* at = &list[commands - 1];
		at->cmd = cmd0;
		at->size = size0;
		at->crc = crc0;
		at->id.a = ida;
		at->id.b = idb;
		last = *at;
	}
	if (vf_bool())
	{
		static struct { Row r; uint8_t more[64]; } rm;
		int size = vf_range(sizeof(Row) + 1, 60);
		Row* row = (Row*)&rm;
		row_init(row, 1, 0, size);
		int cmd = vf_range(0, 1);
		Uuid id = { vf_u64(), vf_u64() };
		write_log_add(&g, cmd, &id, row);
		bool same = commands && last.cmd == cmd && last.id.a == id.a && last.id.b == id.b;
		int n = commands + (same ? 0 : 1);
		VF_ENSURES(buf_size(&g.meta) == n * (int)sizeof(RecordCmd), "log: rows of one table and one kind share a command, others do not");
		RecordCmd* at = &list[n - 1];
		VF_ENSURES(at->cmd == cmd && at->id.a == id.a && at->id.b == id.b, "log: the command names the table and the operation of its rows");
		VF_ENSURES(at->size == (same ? last.size : 0) + (uint32_t)size, "log: the command covers all of its rows");
		VF_ENSURES(g.iov.iov_count == iovs + 1 && g.iov.size == was_size + size, "log: the row is added");
		VF_ENSURES(iov[iovs].iov_base == row && iov[iovs].iov_len == (size_t)size, "log: the row is written whole");
		VF_ENSURES(c_calls == crc, "log: a checksum is computed once when enabled");
		if (crc)
			VF_ENSURES(c_prev == (same ? last.crc : 0) && c_ptr == row && c_len == size && at->crc == c_result, "log: checksum continues over the rows of the command");
		if (! same && commands)
		{
			RecordCmd* p = &list[commands - 1];
			VF_ENSURES(p->cmd == last.cmd && p->size == last.size && p->crc == last.crc && p->id.a == last.id.a && p->id.b == last.id.b, "log: earlier commands stay");
		}
		VF_REACH("log row");
	} else
	{
		static uint8_t op[16];
		uint8_t* p = op;
		json_write_integer(&p, vf_i64());
		int size = p - op;
		int cmd = vf_range(2, 3);
		write_log_add_op(&g, cmd, op);
		RecordCmd* at = &list[commands];
		VF_ENSURES(buf_size(&g.meta) == (commands + 1) * (int)sizeof(RecordCmd), "log: an operation has a command of its own");
		VF_ENSURES(at->cmd == cmd && at->size == (uint32_t)size && at->id.a == 0 && at->id.b == 0, "log: the command covers the operation");
		VF_ENSURES(iov[iovs].iov_base == op && iov[iovs].iov_len == (size_t)size && g.iov.iov_count == iovs + 1 && g.iov.size == was_size + size, "log: the operation is written whole");
		VF_ENSURES(c_calls == crc && (! crc || (c_prev == 0 && c_ptr == op && c_len == size && at->crc == c_result)), "log: checksum over the operation");
		VF_REACH("log op");
	}
}
VF_PROOF(log_add)
{
	switch (vf_range(0, 3)) {
	case 0: log_add(0, 0); break;
	case 1: log_add(1, 1); break;
	case 2: log_add(1, 3); break;
	case 3: log_add(3, 4); break;
	}
}
static bool list_at_last(Write* w, WriteLog* g)
{
	return w->list.prev == &g->link && w->list_count > 0;
}
VF_PROOF(write_add)
{
	bool crc = vf_bool();
	env(crc);
	rt.crc = (void*)one_crc;
	c_calls = 0;
	c_result = vf_u32();
	Write w;
	write_init(&w);
	over(&w.iov.iov, b2);
	write_begin(&w);
	struct iovec* iov = (struct iovec*)b2;
	VF_ENSURES(w.iov.iov_count == 1 && iov[0].iov_base == &w.header && iov[0].iov_len == sizeof(Record), "record: the header comes first");
	VF_ENSURES(w.header.size == sizeof(Record) && w.header.count == 0 && w.header.ops == 0 && w.header.crc == 0, "record: an empty record");
	/* any number of logs later */
	int n = vf_range(0, 4);
	for (int i = 0; i < 0; i++);
	w.iov.iov_count += n;
	w.iov.iov.position += n * sizeof(struct iovec);
	w.header.size = vf_range(sizeof(Record), 1 << 20);
	w.header.count = vf_range(0, 1 << 16);
	w.header.ops = vf_range(0, 1 << 16);
	w.header.crc = vf_u32();
	w.list_count = n;
	Record was = w.header;
	WriteLog g;
	write_log_init(&g);
	over(&g.meta, b1);
	over(&g.iov.iov, b3);
	int commands = vf_range(1, 4), rows = vf_range(1, 4), size = vf_range(1, 1 << 20);
	g.meta.position += commands * sizeof(RecordCmd);
	g.iov.iov.position += rows * sizeof(struct iovec);
	g.iov.iov_count = rows;
	g.iov.size = size;
	write_add(&w, &g);
	VF_REACH("record");
	VF_ENSURES(w.header.size == was.size + commands * sizeof(RecordCmd) + size, "record: size covers commands and rows");
	VF_ENSURES(w.header.count == was.count + (uint32_t)commands && w.header.ops == was.ops + (uint32_t)rows, "record: command and row counts");
	VF_ENSURES(iov[n + 1].iov_base == b1 && iov[n + 1].iov_len == commands * sizeof(RecordCmd) && w.iov.iov_count == n + 2, "record: commands are written behind the header, before any row");
	VF_ENSURES(list_at_last(&w, &g), "record: the rows of the log come last");
	VF_ENSURES(c_calls == crc && (! crc || (c_prev == was.crc && c_ptr == b1 && c_len == (int)(commands * sizeof(RecordCmd)) && w.header.crc == c_result)), "record: checksum continues over the commands");
	/* end */
	was = w.header;
	uint64_t lsn = vf_u64();
	c_calls = 0;
	c_result = vf_u32();
	write_end(&w, lsn);
	VF_ENSURES(w.header.lsn == lsn && w.header.size == was.size && w.header.count == was.count && w.header.ops == was.ops, "record: ends with its lsn");
	VF_ENSURES(c_calls == crc && (! crc || (c_prev == was.crc && c_ptr == (void*)&w.header.lsn && c_len == (int)(sizeof(Record) - 4) && w.header.crc == c_result)), "record: checksum covers the header");
}

/* ---- a record written is a record that validates and says the same */
static uint32_t vf_crc(uint32_t h, void* p, int n)
{
	for (int i = 0; i < n; i++)
		h = (h << 5) - h + ((uint8_t*)p)[i] + 1;
	return h;
}
static uint8_t out[CAP];
static int     out_size;
static void flat(Iov* iov)
{
	struct iovec* v = iov_pointer(iov);
	for (int i = 0; i < iov->iov_count; i++)
	{
		memcpy(out + out_size, v[i].iov_base, v[i].iov_len);
		out_size += v[i].iov_len;
	}
}
static void roundtrip(int shape)
{
	env(true);
	rt.crc = (void*)vf_crc;
	static struct { Row r; uint8_t more[16]; } rows[8];
	static WriteLog g[2];
	Write w;
	write_init(&w);
	over(&w.iov.iov, b1);
	write_begin(&w);
	int n = 0;
	uint8_t cmds[4]; int sizes[4]; int per[4], total = 0;
	for (int l = 0; l < 2; l++)
	{
		write_log_init(&g[l]);
		over(&g[l].meta, l ? b3 : b2);
		over(&g[l].iov.iov, l ? b5 : b4);
		for (int c = 0; c < ((shape & 1) && l == 0 ? 2 : 1); c++)
		{
			Uuid id = { l, c };
			uint8_t cmd = vf_range(0, 1);
			cmds[total] = cmd;
			per[total] = 0;
			for (int r = 0; r < ((shape & 2) ? 2 : 1); r++)
			{
				Row* row = (Row*)&rows[n++];
				row_init(row, 1, 0, sizeof(Row) + 4);
				row->data[1] = 0;
				row->data[2] = vf_u8();
				write_log_add(&g[l], cmd, &id, row);
				per[total]++;
			}
			total++;
		}
		write_add(&w, &g[l]);
	}
	uint64_t lsn = vf_u64();
	write_end(&w, lsn);
	out_size = 0;
	flat(&w.iov);
	flat(&g[0].iov);
	flat(&g[1].iov);
	Record* r = (Record*)out;
	VF_REACH("roundtrip");
	VF_ENSURES(r->size == (uint32_t)out_size && r->lsn == lsn, "record: the bytes written are the announced size");
	VF_ENSURES(record_validate(r), "record: an intact record validates");
	VF_ENSURES(r->count == (uint32_t)total && r->ops == (uint32_t)n, "record: counts");
	uint8_t* pos = record_data(r);
	RecordCmd* cmd = record_cmd(r);
	int k = 0;
	for (int i = 0; i < total; i++, cmd++)
	{
		VF_ENSURES(cmd->cmd == cmds[i], "record: commands in order");
		VF_ENSURES(record_validate_cmd(cmd, pos), "record: intact rows validate");
		for (int j = 0; j < per[i]; j++, k++)
			VF_ENSURES(((Row*)(pos + j * (sizeof(Row) + 4)))->data[2] == rows[k].r.data[2], "record: rows in order, under their command");
		uint8_t* from = pos;
		record_cmd_skip(cmd, &pos);
		VF_ENSURES(pos == from + cmd->size, "record: skipping a command skips its rows");
	}
	VF_ENSURES(pos == out + out_size, "record: nothing follows the last row");
}
VF_PROOF(roundtrip)
{
	switch (vf_range(0, 3)) {
	case 0: roundtrip(0); break;
	case 1: roundtrip(1); break;
	case 2: roundtrip(2); break;
	case 3: roundtrip(3); break;
	}
}
