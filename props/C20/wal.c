//@proof history kind=native fuzz=1500 bound=seeded_histories_of_up_to_60_appends,_rotations,_failed_writes,_crashes_at_any_byte_and_reopens covers=wal_open,wal_write,wal_create,wal_close,wal_truncate,wal_cursor_open,wal_cursor_next,wal_cursor_readahead,wal_file_pread
//@proof damaged kind=native fuzz=4000 bound=as_history,_one_to_four_damaged_bytes covers=wal_cursor_next,record_validate,record_validate_cmd,wal_file_pread
#include "wal_env.h"

/* the process dies: the last file may end anywhere behind the records that
 * were there when it was created; then the log is opened again */
static void crash(void)
{
	wal_close(&wal);
	uint64_t id = files[files_count - 1], size = files_size[files_count - 1];
	uint64_t cut = vf_bool() ? size : vf_range(0, size);
	VF_REQUIRES(truncate(wal_path(id), cut) == 0);
	while (recs_count && recs[recs_count - 1].file == id && recs[recs_count - 1].offset + recs[recs_count - 1].size > cut)
		recs_count--;
	files_size[files_count - 1] = recs_count && recs[recs_count - 1].file == id ? recs[recs_count - 1].offset + recs[recs_count - 1].size : 0;
	opt_int_set(&state()->lsn, recs_count ? recs[recs_count - 1].lsn : 0);
	wal_open(&wal);
	/* recovery reads everything */
	read_from(0);
}
static void reopen_truncated(void)
{
	if (! recs_count)
		return;
	uint64_t lsn = recs[0].lsn + vf_range(0, RECS) % (recs[recs_count - 1].lsn - recs[0].lsn + 2);
	wal_close(&wal);
	opt_int_set(&config()->wal_truncate, lsn);
	wal_open(&wal);
	opt_int_set(&state()->lsn, lsn < state_lsn() ? lsn : state_lsn());
	drop_after(lsn);
	while (files_count > 1 && files[files_count - 1] > lsn)
		files_count--;
	Rec* last = recs_count ? &recs[recs_count - 1] : NULL;
	files_size[files_count - 1] = last && last->file == files[files_count - 1] ? last->offset + last->size : 0;
	VF_ENSURES(opt_int_of(&config()->wal_truncate) == 0, "wal: truncation is done once");
	read_from(0);
}
VF_PROOF(history)
{
	env_init(vf_range(0, 3) != 0);
	WalCursor tail;
	wal_cursor_init(&tail);
	int tail_at = -1;
	int n = vf_range(1, 60);
	for (int i = 0; i < n; i++)
	{
		switch (vf_range(0, 11)) {
		case 0:
			rotate();
			break;
		case 1:
			if (tail_at >= 0)
				wal_cursor_close(&tail);
			tail_at = -1;
			crash();
			break;
		case 2:
			if (vf_range(0, 3) == 0)
			{
				if (tail_at >= 0)
					wal_cursor_close(&tail);
				tail_at = -1;
				reopen_truncated();
			}
			break;
		case 3:
			read_from(vf_range(0, recs_count ? recs[recs_count - 1].lsn + 1 : 1));
			break;
		case 4:
			/* follow the log while it grows */
			if (tail_at < 0)
			{
				wal_cursor_open(&tail, &wal, 0, true, true && opt_int_of(&config()->wal_crc));
				tail_at = 0;
			}
			for (; tail_at < recs_count; tail_at++)
			{
				VF_ENSURES(wal_cursor_next(&tail), "wal: a reader that follows the log sees every record");
				same_rec(wal_cursor_at(&tail), &recs[tail_at]);
			}
			VF_ENSURES(! wal_cursor_next(&tail), "wal: a reader that follows the log stops at its end");
			break;
		default:
			append(vf_bool());
			break;
		}
	}
	read_from(0);
	VF_REACH("history");
	if (tail_at >= 0)
		wal_cursor_close(&tail);
	wal_close(&wal);
	wal_free(&wal);
}
VF_PROOF(damaged)
{
	env_init(true);
	io_short = 0;
	int n = vf_range(1, 10);
	for (int i = 0; i < n; i++)
		append(false);
	wal_close(&wal);
	/* damaged bytes */
	int fd = open(wal_path(1), O_RDWR);
	uint64_t size = files_size[0];
	int d = vf_range(1, 4);
	for (int i = 0; i < d; i++)
	{
		uint64_t at;
		if (vf_bool())
			at = recs[vf_range(0, RECS) % recs_count].offset + vf_range(0, sizeof(Record) + sizeof(RecordCmd) - 1);
		else
			at = vf_range(0, size - 1);
		if (at >= size)
			continue;
		uint8_t b, x = vf_bool() ? 1 << vf_range(0, 7) : vf_range(1, 255);
		if (pread(fd, &b, 1, at) != 1)
			continue;
		if (vf_range(0, 3) == 0)
			x = b; /* zeroed */
		b ^= x;
		VF_REQUIRES(pwrite(fd, &b, 1, at) == 1);
	}
	for (int i = 0; i < recs_count; i++)
	{
		/* which records really differ */
		uint8_t* p = malloc(recs[i].size);
		VF_REQUIRES(pread(fd, p, recs[i].size, recs[i].offset) == (ssize_t)recs[i].size);
		Record* r = (Record*)p;
		/* CRC-32 detects every change of up to 32 consecutive bits; other
		 * patterns by chance only (ignored: 2^-32) */
		recs[i].damaged = false;
		(void)r;
		free(p);
	}
	close(fd);
	WalFile* f = wal_file_allocate(1);
	int at = 0;
	bool failed = error_catch
	(
		WalCursor c;
		wal_cursor_init(&c);
		c.wal = &wal;
		c.crc = true;
		c.file_next = false;
		wal_file_open(f);
		c.file = f;
		while (wal_cursor_next(&c))
		{
			Record* r = wal_cursor_at(&c);
			Rec got;
			if (! rec_read(r, &got))
				break;
			VF_ENSURES(at < recs_count, "wal: no record is invented");
			VF_ENSURES(got.lsn == recs[at].lsn && got.hash == recs[at].hash && got.ops == recs[at].ops && got.count == recs[at].count, "wal: a damaged record is never taken for a valid one");
			at++;
		}
	);
	(void)failed;
	VF_REACH("damaged");
	wal_file_close(f);
	wal_file_free(f);
	wal_free(&wal);
}
