/*
 * A generator of encoded documents which keeps, next to the bytes it writes,
 * the offsets of everything it wrote: the oracle for every function which
 * walks a document.  The widths of the headers are chosen freely (a reader
 * must not depend on the shortest one).
 */
#ifndef DOC_SIZE
#define DOC_SIZE 48
#endif
#ifndef DOC_TOKENS
#define DOC_TOKENS 8
#endif
#ifndef DOC_DEPTH
#define DOC_DEPTH 3
#endif

/* the verifier walks documents of small tokens */
static bool small;

typedef struct
{
	int      kind;   /* 0 null, 1 bool, 2 real, 3 int, 4 string, 5 obj, 6 obj end, 7 array, 8 array end */
	int64_t  value;  /* bool, int, size of a string */
	double   real;
	int      off;
} Token;

typedef struct
{
	uint8_t  data[DOC_SIZE];
	int      size;
	Token    tokens[DOC_TOKENS];
	int      count;
	/* children of the topmost container, keys are kept in key */
	int      child[DOC_TOKENS];
	int      key[DOC_TOKENS];
	int      children;
} Doc;

static void doc_byte(Doc* self, int c)
{
	VF_REQUIRES(self->size < DOC_SIZE);
	self->data[self->size++] = c;
}

static void doc_bytes(Doc* self, uint64_t value, int size)
{
	for (int i = 0; i < size; i++)
		doc_byte(self, value >> (i * 8));
}

static void doc_token(Doc* self, int kind)
{
	VF_REQUIRES(self->count < DOC_TOKENS);
	auto t = &self->tokens[self->count++];
	t->kind  = kind;
	t->value = 0;
	t->real  = 0;
	t->off   = self->size;
	switch (kind) {
	case 0:
		doc_byte(self, JSON_NULL);
		break;
	case 1:
		t->value = vf_range(0, 1);
		doc_byte(self, t->value ? JSON_TRUE : JSON_FALSE);
		break;
	case 2:
	{
#ifdef VF_CBMC
		VF_REQUIRES(! small);
#endif
		union { double d; float f; uint64_t u; uint32_t u32; } u;
		if (vf_bool())
		{
			u.u = vf_u64();
			VF_REQUIRES(u.d == u.d);
			t->real = u.d;
			doc_byte(self, JSON_REAL64);
			doc_bytes(self, u.u, 8);
		} else
		{
			u.u32 = vf_u32();
			VF_REQUIRES(u.f == u.f);
			t->real = u.f;
			doc_byte(self, JSON_REAL32);
			doc_bytes(self, u.u32, 4);
		}
		break;
	}
	case 3:
#ifdef VF_CBMC
		if (small)
		{
			t->value = (int8_t)vf_u64();
			doc_byte(self, JSON_INT8);
			doc_byte(self, t->value);
			break;
		}
#endif
		switch (vf_range(0, 4)) {
		case 0: t->value = vf_range(0, 31);   doc_byte(self, JSON_INTV0 + t->value); break;
		case 1: t->value = (int8_t)vf_u64();  doc_byte(self, JSON_INT8);  doc_bytes(self, t->value, 1); break;
		case 2: t->value = (int16_t)vf_u64(); doc_byte(self, JSON_INT16); doc_bytes(self, t->value, 2); break;
		case 3: t->value = (int32_t)vf_u64(); doc_byte(self, JSON_INT32); doc_bytes(self, t->value, 4); break;
		case 4: t->value = vf_i64();          doc_byte(self, JSON_INT64); doc_bytes(self, t->value, 8); break;
		}
		break;
	case 4:
	{
		int size = vf_range(0, 2);
		t->value = size;
#ifdef VF_CBMC
		if (small)
		{
			VF_REQUIRES(size <= 1);
			doc_byte(self, JSON_STRINGV0 + size);
			if (size)
				doc_byte(self, vf_range('a', 'b') == 'b' ? 0xC0 : 'a');
			break;
		}
#endif
		switch (vf_range(0, 3)) {
		case 0: doc_byte(self, JSON_STRINGV0 + size); break;
		case 1: doc_byte(self, JSON_STRING8);  doc_bytes(self, size, 1); break;
		case 2: doc_byte(self, JSON_STRING16); doc_bytes(self, size, 2); break;
		case 3: doc_byte(self, JSON_STRING32); doc_bytes(self, size, 4); break;
		}
		for (int i = 0; i < size; i++)
			doc_byte(self, vf_range('a', 'b') == 'b' ? 0xC0 : 'a');
		break;
	}
	case 5: doc_byte(self, JSON_OBJ); break;
	case 6: doc_byte(self, JSON_OBJ_END); break;
	case 7: doc_byte(self, JSON_ARRAY); break;
	case 8: doc_byte(self, JSON_ARRAY_END); break;
	}
}

/* any value of at most DOC_TOKENS tokens and DOC_DEPTH nested containers
 * (top: 0 any value, 5 object, 7 array) */
static void doc_value(Doc* self, int top, bool scalars)
{
	self->size = self->count = self->children = 0;
	bool obj[DOC_DEPTH];
	bool key[DOC_DEPTH]; /* the next string is a key */
	int  level = 0;
	for (int i = 0; i < DOC_TOKENS; i++)
	{
		int kind;
		if (level == 0)
		{
			kind = top ? top : vf_range(0, 4);
			if (! top && vf_bool() && ! scalars)
				kind = vf_bool() ? 5 : 7;
		} else
		if (obj[level - 1] && key[level - 1])
		{
			kind = vf_bool() ? 4 : 6;
		} else
		{
			kind = vf_range(0, 8);
			VF_REQUIRES(kind != 6);
			VF_REQUIRES(kind != 8 || ! obj[level - 1]);
		}
		if (level == 1 && kind != 6 && kind != 8)
		{
			if (obj[0] && key[0])
				self->key[self->children] = self->size;
			else
				self->child[self->children++] = self->size;
		}
		bool is_key = level > 0 && obj[level - 1] && key[level - 1];
		doc_token(self, kind);
		if (level > 0 && obj[level - 1])
			key[level - 1] = ! is_key;
		if (kind == 5 || kind == 7)
		{
			VF_REQUIRES(level < DOC_DEPTH);
			obj[level] = kind == 5;
			key[level] = true;
			level++;
		} else
		if (kind == 6 || kind == 8)
		{
			level--;
		}
		if (level == 0)
			break;
	}
	VF_REQUIRES(level == 0);
}
