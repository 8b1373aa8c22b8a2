//@proof link kind=proof unwind=2 timeout=100 covers=list_append,list_push,list_unlink,list_pop,list_init,list_empty,list_first,list_last,list_is_first,list_is_last
//@proof history kind=native fuzz=20000 covers=list_append,list_push,list_unlink,list_pop,list_first,list_last
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>

/* each operation writes nothing but the node and the neighbours of the place:
 * well-formedness of every list follows from that of these nodes */
static bool linked(List* a, List* b)
{
	return a->next == b && b->prev == a;
}

VF_PROOF(link)
{
	vf_init();
	List head, first, last, link;
	list_init(&link);
	/* none, one or any number of nodes in the list */
	int nodes = vf_range(0, 2);
	switch (nodes) {
	case 0:
		list_init(&head);
		break;
	case 1:
		head.next = head.prev = &first;
		first.next = first.prev = &head;
		break;
	case 2:
		/* anything may be between first and last */
		head.next = &first;
		first.prev = &head;
		head.prev = &last;
		last.next = &head;
		first.next = (List*)&vf_task;
		last.prev = (List*)&vf_coro;
		break;
	}
	List* f = nodes == 0 ? &head : &first;
	List* l = nodes == 0 ? &head : nodes == 1 ? &first : &last;
	VF_ENSURES(list_empty(&head) == (nodes == 0), "list_empty");
	VF_ENSURES(list_first(&head) == f && list_last(&head) == l, "list_first, list_last");
	VF_ENSURES(list_is_first(&head, f) && list_is_last(&head, l), "list_is_first, list_is_last");
	VF_ENSURES(list_is_first(&head, l) == (f == l) && list_is_last(&head, f) == (f == l), "list_is_first, list_is_last");
	bool back = vf_bool();
	if (back)
	{
		list_append(&head, &link);
		VF_ENSURES(linked(l, &link) && linked(&link, &head), "list_append: last in the list");
		if (nodes)
			VF_ENSURES(linked(&head, f), "list_append: the rest stays");
	} else
	{
		list_push(&head, &link);
		VF_ENSURES(linked(&head, &link) && linked(&link, f), "list_push: first in the list");
		if (nodes)
			VF_ENSURES(linked(l, &head), "list_push: the rest stays");
	}
	if (nodes == 2)
		VF_ENSURES(first.next == (List*)&vf_task && last.prev == (List*)&vf_coro, "list: the rest stays");
	VF_ENSURES(! list_empty(&head), "list_empty");
	if (! back && vf_bool())
		VF_ENSURES(list_pop(&head) == &link, "list_pop: the first");
	else
		list_unlink(&link);
	VF_ENSURES(head.next == f && head.prev == l && f->prev == &head && l->next == &head, "list_unlink: the list as it was");
	if (nodes == 2)
		VF_ENSURES(first.next == (List*)&vf_task && last.prev == (List*)&vf_coro, "list: the rest stays");
	VF_REACH("linked");
}

#ifndef VF_CBMC
VF_PROOF(history)
{
	vf_init();
	List head, nodes[20];
	int order[20], count = 0;
	bool in[20] = { 0 };
	list_init(&head);
	int steps = vf_range(1, 60);
	while (steps-- > 0)
	{
		int i = vf_range(0, 19);
		if (in[i])
		{
			int at = 0;
			if (vf_bool())
			{
				VF_ENSURES(list_pop(&head) == &nodes[order[0]], "list_pop");
				i = order[0];
			} else
			{
				while (order[at] != i)
					at++;
				list_unlink(&nodes[i]);
			}
			memmove(order + at, order + at + 1, sizeof(int) * (count - at - 1));
			count--;
			in[i] = false;
		} else
		{
			list_init(&nodes[i]);
			if (vf_bool())
			{
				list_append(&head, &nodes[i]);
				order[count] = i;
			} else
			{
				list_push(&head, &nodes[i]);
				memmove(order + 1, order, sizeof(int) * count);
				order[0] = i;
			}
			count++;
			in[i] = true;
		}
		int k = 0;
		list_foreach(&head)
			VF_ENSURES(k < count && _i == &nodes[order[k++]], "list: the nodes in order");
		VF_ENSURES(k == count, "list: all nodes");
		list_foreach_reverse(&head)
			VF_ENSURES(k > 0 && _i == &nodes[order[--k]], "list: the nodes in reverse order");
		VF_ENSURES(k == 0, "list: all nodes");
		list_foreach_safe(&head)
			k++;
		VF_ENSURES(k == count && list_empty(&head) == (count == 0), "list: all nodes");
	}
	VF_REACH("history");
}
#endif
