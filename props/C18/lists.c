//@proof order kind=bounded unwind=6 bound=transactions_of_up_to_4_operations covers=tr_commit,tr_abort,tr_begin
//@proof lists kind=bounded unwind=6 bound=up_to_4_prepared_transactions covers=tr_commit_list,tr_abort_list,track_sync,tr_list_add,tr_cache_push
//@flags -DVF_NO_REALLOC
//@assume a transaction decided to commit is not older, on the same partition, than one aborted at the same time (see DESIGN.md)
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include "transaction/commit.c"
#include <vf_env.h>

#define OPS 4
#define TRS 4
static LogOp mem[TRS][OPS];
static int   id_of_op[TRS * OPS];
static int   done[TRS * OPS], done_count, undone[TRS * OPS], undone_count;
static void on_commit(Log* l, LogOp* op) { (void)l; done[done_count++] = *(int*)op->iface_arg; }
static void on_abort(Log* l, LogOp* op)  { (void)l; undone[undone_count++] = *(int*)op->iface_arg; }
static LogIf iface = { on_commit, on_abort };

static void prepare(Tr* tr, int t, int ops)
{
	tr_init(tr);
	tr_begin(tr);
	tr->log.op.start = tr->log.op.position = (uint8_t*)mem[t];
	tr->log.op.end = (uint8_t*)(mem[t] + OPS);
	for (int i = 0; i < OPS; i++)
		if (i < ops)
		{
			mem[t][i].iface = &iface;
			id_of_op[t * OPS + i] = t * OPS + i;
			mem[t][i].iface_arg = &id_of_op[t * OPS + i];
			tr->log.op.position += sizeof(LogOp);
			tr->log.count++;
		}
}
static void order_of(int ops)
{
	vf_init();
	done_count = undone_count = 0;
	static Tr tr;
	prepare(&tr, 0, ops);
	VF_REACH("order");
	if (vf_bool())
	{
		tr_commit(&tr);
		VF_ENSURES(done_count == ops && undone_count == 0, "commit: every operation is committed, once");
		for (int i = 0; i < OPS; i++)
			VF_ENSURES(i >= ops || done[i] == i, "commit: in order");
		VF_ENSURES(! tr_active(&tr) && ! tr_aborted(&tr) && tr_read_only(&tr), "commit: the transaction is over");
	} else
	{
		tr_abort(&tr);
		VF_ENSURES(undone_count == ops && done_count == 0, "abort: every operation is undone, once");
		for (int i = 0; i < OPS; i++)
			VF_ENSURES(i >= ops || undone[i] == ops - 1 - i, "abort: latest first");
		VF_ENSURES(! tr_active(&tr) && tr_aborted(&tr) && tr_read_only(&tr), "abort: the transaction is over");
	}
}
VF_PROOF(order)
{
	switch (vf_range(0, OPS)) {
	case 0:  order_of(0); break;
	case 1:  order_of(1); break;
	case 2:  order_of(2); break;
	case 3:  order_of(3); break;
	default: order_of(4); break;
	}
}
static void lists_of(int trs, uint64_t limit, bool abort)
{
	vf_init();
	done_count = undone_count = 0;
	static Tr tr[TRS];
	static Track track;
	tr_list_init(&track.prepared);
	tr_cache_init(&track.cache);
	consensus_init(&track.consensus_pod);
	uint64_t id = 2;
	for (int i = 0; i < TRS; i++)
		if (i < trs)
		{
			prepare(&tr[i], i, 1);
			tr_set_id(&tr[i], id);
			id += 2;
			tr_list_add(&track.prepared, &tr[i]);
		}
	Consensus to;
	track.consensus_pod.commit = track.consensus_pod.abort = 1;
	to.commit = abort ? track.consensus_pod.commit : limit;
	to.abort  = abort ? limit : track.consensus_pod.abort;
	int n = 0;
	for (int i = 0; i < TRS; i++)
		if (i < trs && tr[i].id <= limit)
			n++;
	track_sync(&track, &to);
	VF_REACH("lists");
	VF_ENSURES((abort ? undone_count : done_count) == n && (abort ? done_count : undone_count) == 0, "exactly the decided transactions are finished");
	for (int i = 0; i < TRS; i++)
		if (i < n)
			VF_ENSURES((abort ? undone[n - 1 - i] : done[i]) == i * OPS, "commits oldest first, rollback latest first");
	VF_ENSURES(track.prepared.list_count == trs - n && track.cache.list_count == n, "the others stay prepared");
	int seen = n;
	list_foreach(&track.prepared.list)
	{
		auto t = list_at(Tr, link);
		VF_ENSURES(seen < trs && t == &tr[seen] && tr_active(t) && t->log.count == 1, "the others stay prepared, in order");
		seen++;
	}
	VF_ENSURES(seen == trs, "no prepared transaction is lost");
	VF_ENSURES(track.consensus_pod.commit >= to.commit && track.consensus_pod.abort >= to.abort, "the decision is remembered");
}
#define LIMITS(n, abort) \
	switch (vf_range(0, 9)) { \
	case 0: lists_of(n, 0, abort); break; case 1: lists_of(n, 1, abort); break; \
	case 2: lists_of(n, 2, abort); break; case 3: lists_of(n, 3, abort); break; \
	case 4: lists_of(n, 4, abort); break; case 5: lists_of(n, 5, abort); break; \
	case 6: lists_of(n, 6, abort); break; case 7: lists_of(n, 7, abort); break; \
	case 8: lists_of(n, 8, abort); break; default: lists_of(n, 9, abort); break; }
VF_PROOF(lists)
{
	if (vf_bool())
		switch (vf_range(0, 2)) {
		case 0:  LIMITS(0, true); break;
		case 1:  LIMITS(2, true); break;
		default: LIMITS(4, true); break;
		}
	else
		switch (vf_range(0, 2)) {
		case 0:  LIMITS(1, false); break;
		case 1:  LIMITS(3, false); break;
		default: LIMITS(4, false); break;
		}
}
