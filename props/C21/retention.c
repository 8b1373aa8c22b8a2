//@proof retention kind=native fuzz=12000 bound=seeded_histories_of_up_to_60_appends,_rotations,_checkpoints_and_readers covers=wal_gc,wal_slots,wal_in_range,wal_snapshot,wal_add,wal_del,wal_slot_set,wal_create,wal_cursor_open
//@proof dirs kind=native fuzz=5000 bound=seeded_directory_contents covers=wal_open_directory,wal_open,wal_truncate
#include "../C20/wal_env.h"

#define READERS 4
static WalSlot   slot[READERS];
static bool      slot_on[READERS];
static bool      slot_snapshot[READERS];
static WalCursor cur[READERS];
static bool      cur_on[READERS];
static int       cur_at[READERS];       /* next record it must see */

static bool exists(uint64_t id) { return access(wal_path(id), F_OK) == 0; }

/* files[] still lists every file ever created; kept from files_first on */
static int first;
static void gc(uint64_t min)
{
	uint64_t from = min;
	for (int i = 0; i < READERS; i++)
		if (slot_on[i] && slot[i].lsn < from)
			from = slot[i].lsn;
	wal_gc(&wal, min);
	for (int i = first; i < files_count; i++)
	{
		/* records from this file end before the next one starts */
		bool needed = i == files_count - 1 || files[i + 1] > from;
		if (needed)
			VF_ENSURES(exists(files[i]), "log retention: files holding records a reader, backup or recovery still needs are kept");
		else
			VF_ENSURES(! exists(files[i]), "log retention: files nobody needs are removed");
	}
	while (first < files_count - 1 && files[first + 1] <= from)
		first++;
	/* the list of files and the directory agree */
	int count;
	uint64_t lo;
	id_mgr_stats(&wal.list, &count, &lo);
	VF_ENSURES(count == files_count - first && lo == files[first], "log retention: the list of files is what is on disk");
	/* everything from the checkpoint on can still be recovered */
	WalCursor c;
	wal_cursor_init(&c);
	wal_cursor_open(&c, &wal, from, true, opt_int_of(&config()->wal_crc));
	if (from && from < files[first])
		VF_ENSURES(! wal_cursor_active(&c), "wal: a position before the first file is not in the log");
	else
	{
		int at = 0;
		while (at < recs_count && (recs[at].lsn < from || file_of(recs[at].file) < first))
			at++;
		for (; at < recs_count; at++)
		{
			VF_ENSURES(wal_cursor_next(&c), "log retention: no record from the kept position on is lost");
			same_rec(wal_cursor_at(&c), &recs[at]);
		}
		VF_ENSURES(! wal_cursor_next(&c), "wal: nothing follows the last record");
	}
	wal_cursor_close(&c);
}
static void rd_open(int i)
{
	uint64_t last = recs_count ? recs[recs_count - 1].lsn : 0;
	slot_snapshot[i] = vf_bool();
	if (slot_snapshot[i])
	{
		/* a backup: the slot keeps everything, and lists every file */
		Buf list;
		buf_init(&list);
		wal_snapshot(&wal, &slot[i], &list);
		uint8_t* p = list.start;
		json_read_array(&p);
		for (int f = first; f < files_count; f++)
		{
			Str name;
			int64_t size, mode;
			char want[64];
			VF_ENSURES(! json_read_array_end(&p), "log retention: a backup lists every log file");
			snprintf(want, sizeof(want), "wal/%" PRIu64, files[f]);
			json_read_array(&p);
			json_read_string(&p, &name);
			json_read_integer(&p, &size);
			json_read_integer(&p, &mode);
			VF_ENSURES(json_read_array_end(&p), "backup entry");
			VF_ENSURES(str_is(&name, want, strlen(want)) && size == (int64_t)files_size[f], "log retention: a backup lists every log file with its size");
		}
		VF_ENSURES(json_read_array_end(&p) && p == list.position, "log retention: a backup lists nothing else");
		buf_free(&list);
		slot_on[i] = true;
		return;
	}
	/* as a replica: it has everything up to lsn and reads from the next one */
	uint64_t lsn = vf_range(0, last);
	if (lsn < files[first] && lsn > 0)
	{
		VF_ENSURES(! wal_in_range(&wal, lsn), "log retention: a position before the first file is out of range");
		return;
	}
	if (! lsn && files[first] > 1)
		return;
	if (lsn)
		VF_ENSURES(wal_in_range(&wal, lsn), "log retention: a position in the log is in range");
	wal_slot_set(&slot[i], lsn);
	wal_add(&wal, &slot[i]);
	slot_on[i] = true;
	wal_cursor_init(&cur[i]);
	wal_cursor_open(&cur[i], &wal, lsn + 1, true, opt_int_of(&config()->wal_crc));
	cur_on[i] = true;
	int at = 0;
	while (at < recs_count && (recs[at].lsn <= lsn || file_of(recs[at].file) < first))
		at++;
	cur_at[i] = at;
}
static void rd_step(int i)
{
	if (! cur_on[i])
		return;
	for (int n = vf_range(0, 5); n > 0; n--)
	{
		bool more = wal_cursor_next(&cur[i]);
		VF_ENSURES(more == (cur_at[i] < recs_count), "log retention: a registered reader never finds a gap");
		if (! more)
			break;
		same_rec(wal_cursor_at(&cur[i]), &recs[cur_at[i]]);
		cur_at[i]++;
		wal_slot_set(&slot[i], wal_cursor_at(&cur[i])->lsn);
	}
}
static void rd_close(int i)
{
	wal_del(&wal, &slot[i]);
	VF_ENSURES(! slot[i].added, "slot is removed");
	slot_on[i] = false;
	if (cur_on[i])
		wal_cursor_close(&cur[i]);
	cur_on[i] = false;
}
VF_PROOF(retention)
{
	env_init(vf_range(0, 3) != 0);
	first = 0;
	for (int i = 0; i < READERS; i++)
	{
		wal_slot_init(&slot[i]);
		slot_on[i] = cur_on[i] = false;
	}
	int n = vf_range(1, 60);
	for (int k = 0; k < n; k++)
	{
		int i = vf_range(0, READERS - 1);
		switch (vf_range(0, 9)) {
		case 0: case 1:
			rotate();
			break;
		case 2:
			/* checkpoint: everything before is stored elsewhere */
			gc(vf_range(0, recs_count ? recs[recs_count - 1].lsn + 2 : 2));
			break;
		case 3:
			if (slot_on[i])
				rd_close(i);
			else
				rd_open(i);
			break;
		case 4: case 5:
			if (slot_on[i])
				rd_step(i);
			break;
		default:
			append(vf_bool());
			break;
		}
	}
	for (int i = 0; i < READERS; i++)
		if (slot_on[i])
		{
			for (int k = 0; k < 40; k++)
				rd_step(i);
			rd_close(i);
		}
	VF_REACH("retention");
	gc(state_lsn());
	VF_ENSURES(wal.slots_count == 0, "log retention: no reader left");
	wal_close(&wal);
	wal_free(&wal);
}
/* what a log directory holds is what is opened: all log files, no others */
VF_PROOF(dirs)
{
	env_init(true);
	io_short = 0;
	for (int n = vf_range(1, 12); n > 0; n--)
		if (vf_range(0, 2))
			append(false);
		else
			rotate();
	wal_close(&wal);
	/* foreign files */
	static const char* other[] = { "1.incomplete", "x1", "tmp", ".7", "99999999999999999999", "9223372036854775808", "-3", "+5", "7 ", "0x1" };
	for (int i = 0; i < 10; i++)
		if (vf_bool())
		{
			char path[600];
			snprintf(path, sizeof(path), "%s/wal/%s", dir, other[i]);
			int fd = open(path, O_CREAT|O_WRONLY, 0600);
			VF_REQUIRES(fd >= 0);
			close(fd);
		}
	wal_open(&wal);
	int count;
	uint64_t lo;
	id_mgr_stats(&wal.list, &count, &lo);
	VF_ENSURES(count == files_count && lo == files[0], "log retention: exactly the log files are opened");
	VF_ENSURES(wal.current->id == files[files_count - 1] && wal.current->file.size == files_size[files_count - 1], "log retention: writing continues in the newest file");
	read_from(0);
	VF_REACH("dirs");
	wal_close(&wal);
	wal_free(&wal);
}
