//@proof scalar unwind=11 timeout=300 unwindfn=json_compare:2,json_skip:2 covers=json_compare,json_compare_integer,json_compare_string
//@proof documents kind=native fuzz=60000 bound=seeded_random_pairs_of_documents_of_at_most_12_tokens covers=json_compare
//@proof steps kind=bounded unwind=6 timeout=300 unwindfn=json_compare:4 bound=pairs_of_arrays_of_at_most_2_integers covers=json_compare
//@nflags -DDOC_TOKENS=12 -DDOC_SIZE=160 -DDOC_DEPTH=3
//@flags -DVF_NO_REALLOC
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifdef VF_CBMC
#define DOC_TOKENS 1
#define DOC_SIZE 12
#define DOC_DEPTH 1
#endif
#include "doc.h"

static Doc a, b;

static int sign(int v)
{
	return v < 0 ? -1 : v > 0;
}

/* the order of two tokens: by kind, then by value */
static int order(Token* x, Token* y)
{
	/* an array which ends is above any value, an object which ends is below an array */
	static const int rank[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8 };
	if (x->kind != y->kind)
		return rank[x->kind] < rank[y->kind] ? -1 : 1;
	switch (x->kind) {
	case 1:
	case 3:
		return x->value < y->value ? -1 : x->value > y->value;
	case 2:
		return x->real < y->real ? -1 : x->real > y->real;
	case 4:
	{
		/* the last bytes of the token */
		int size_x = x->value, size_y = y->value;
		int off_x, off_y;
		uint8_t c = a.data[x->off];
		off_x = x->off + (c <= JSON_STRINGV31 ? 1 : c == JSON_STRING8 ? 2 : c == JSON_STRING16 ? 3 : 5);
		c = b.data[y->off];
		off_y = y->off + (c <= JSON_STRINGV31 ? 1 : c == JSON_STRING8 ? 2 : c == JSON_STRING16 ? 3 : 5);
		for (int i = 0; i < 2; i++)
		{
			if (i >= size_x || i >= size_y)
				break;
			if (a.data[off_x + i] != b.data[off_y + i])
				return a.data[off_x + i] < b.data[off_y + i] ? -1 : 1;
		}
		return size_x < size_y ? -1 : size_x > size_y;
	}
	}
	return 0;
}

static int order_docs(void)
{
	for (int i = 0; i < DOC_TOKENS; i++)
	{
		/* equal so far: neither ends before the other */
		if (i == a.count || i == b.count)
			break;
		int rc = order(&a.tokens[i], &b.tokens[i]);
		if (rc)
			return rc;
	}
	return 0;
}

/* contract json_compare on scalars: the kinds in the order null, boolean, real,
 * integer, string; equal kinds by value: false before true, numbers by value
 * and not by the width they were stored in, strings by unsigned bytes with a
 * proper prefix first */
VF_PROOF(scalar)
{
	vf_init();
	doc_value(&a, 0, true);
	doc_value(&b, 0, true);
	VF_MAY_THROW(false);
	int expect = order_docs();
	VF_ENSURES(sign(json_compare(a.data, b.data)) == expect, "json_compare: order of scalars");
	if (a.tokens[0].kind == 3 && b.tokens[0].kind == 3)
		VF_ENSURES(sign(json_compare_integer(a.data, b.data)) == expect, "json_compare_integer");
	if (a.tokens[0].kind == 4 && b.tokens[0].kind == 4)
		VF_ENSURES(sign(json_compare_string(a.data, b.data)) == expect, "json_compare_string");
	if (expect == 0)
		VF_REACH("equal");
	else
		VF_REACH("not equal");
}

/* containers: the first token which differs decides; equal only if all are */
VF_PROOF(documents)
{
	vf_init();
#ifndef VF_CBMC
	doc_value(&a, 0, false);
	if (vf_bool())
	{
		/* a copy with one difference, or none */
		b = a;
		int i = vf_range(0, a.count - 1);
		if (b.tokens[i].kind == 1)
		{
			b.tokens[i].value = ! b.tokens[i].value;
			b.data[b.tokens[i].off] = b.tokens[i].value ? JSON_TRUE : JSON_FALSE;
		}
	} else
		doc_value(&b, 0, false);
	VF_MAY_THROW(false);
	VF_REACH("pair");
	int expect = order_docs();
	VF_ENSURES(sign(json_compare(a.data, b.data)) == expect, "json_compare: first difference decides");
	if (expect == 0)
		VF_ENSURES(a.count == b.count, "json_compare: equal only if all tokens are");
#else
	VF_REACH("-");
#endif
}

/* arrays of integers */
static int array_of(uint8_t* data, int8_t* values, int count)
{
	int at = 0;
	data[at++] = JSON_ARRAY;
	for (int i = 0; i < 2; i++)
	{
		if (i == count)
			break;
		data[at++] = JSON_INT8;
		data[at++] = values[i] = vf_u8();
	}
	data[at++] = JSON_ARRAY_END;
	return at;
}

VF_PROOF(steps)
{
	vf_init();
	static uint8_t x[8], y[8];
	int8_t vx[2] = {0}, vy[2] = {0};
	int nx = vf_range(0, 2), ny = vf_range(0, 2);
	array_of(x, vx, nx);
	array_of(y, vy, ny);
	VF_MAY_THROW(false);
	int rc = sign(json_compare(x, y));
	int expect = 0;
	for (int i = 0; i < 2 && ! expect; i++)
		if (i < nx && i < ny)
			expect = vx[i] < vy[i] ? -1 : vx[i] > vy[i];
	/* the end of an array is above any value */
	if (! expect)
		expect = nx < ny ? 1 : nx > ny ? -1 : 0;
	VF_ENSURES(rc == expect, "json_compare: order of arrays");
	VF_REACH("compared");
}
