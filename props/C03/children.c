//@proof array kind=bounded unwind=7 timeout=300 replace=json_skip bound=arrays_of_at_most_4_values_of_any_kind covers=json_array_find,json_array_has,json_array_last,json_array_size
//@proof object kind=bounded unwind=5 timeout=300 replace=json_skip,str_is bound=objects_of_at_most_3_keys,_values_of_any_kind covers=json_obj_find,json_obj_size
//@flags -DVF_NO_REALLOC
#include <vf.h>
#define DATA 20
static uint8_t data[DATA];
static uint8_t width[DATA];
#ifdef VF_CBMC
/* what C03/walk.c discharges for json_skip: behind the value. The width of the
 * value at an offset is free, the bytes of the value after the first one are
 * never looked at */
static inline void json_skip(uint8_t** pos)
__CPROVER_requires(__CPROVER_POINTER_OBJECT(*pos) == __CPROVER_POINTER_OBJECT(data) && __CPROVER_POINTER_OFFSET(*pos) < DATA && width[__CPROVER_POINTER_OFFSET(*pos)] > 0)
__CPROVER_assigns(*pos)
__CPROVER_ensures(__CPROVER_pointer_equals(*pos, __CPROVER_old(*pos) + width[__CPROVER_POINTER_OFFSET(__CPROVER_old(*pos))]));

/* what C09/str.c discharges for str_is: whether the names are equal, here
 * a free choice for every key of the document */
static bool match[DATA];
typedef struct Str Str;
static inline bool str_is(Str* self, const void* string, int size)
__CPROVER_requires(__CPROVER_POINTER_OBJECT(*(char**)self) == __CPROVER_POINTER_OBJECT(data) && __CPROVER_POINTER_OFFSET(*(char**)self) < DATA)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == match[__CPROVER_POINTER_OFFSET(*(char**)self)]);
#endif
#include <amelie_runtime>
#include <vf_env.h>

static int child[4];
static int key[4];
static int key_size[4];
static int children;

static int put(int at, int c)
{
	VF_REQUIRES(at < DATA);
	data[at] = c;
	return at + 1;
}

/* a value: its first byte and its width, the rest is free */
static int value(int at)
{
#ifdef VF_CBMC
	int size = vf_range(1, 3);
	VF_REQUIRES(at + size < DATA);
	width[at] = size;
	data[at] = vf_range(JSON_NULL, JSON_ARRAY);
	VF_REQUIRES(data[at] != JSON_OBJ_END);
	data[at + 1] = vf_u8();
	data[at + 2] = vf_u8();
	return at + size;
#else
	switch (vf_range(0, 4)) {
	case 0: return put(put(at, JSON_INT8), vf_u8());
	case 1: return put(at, JSON_NULL);
	case 2: return put(put(at, JSON_ARRAY), JSON_ARRAY_END);
	case 3: return put(put(at, JSON_STRINGV0 + 1), vf_u8());
	default: return put(put(put(at, JSON_OBJ), JSON_STRINGV0), JSON_NULL), put(at + 1, JSON_OBJ_END);
	}
#endif
}

/* contract json_array_*: the value at each position, and no other */
VF_PROOF(array)
{
	vf_init();
	int at = put(0, JSON_ARRAY);
	children = vf_range(0, 4);
	for (int i = 0; i < 4; i++)
	{
		if (i == children)
			break;
		child[i] = at;
		at = value(at);
	}
	put(at, JSON_ARRAY_END);
	VF_MAY_THROW(false);

	int i = vf_range(0, children);
	uint8_t* pos = data;
	bool found;
	switch (vf_range(0, 3)) {
	case 0:
		found = json_array_find(&pos, i);
		VF_ENSURES(found == (i < children), "json_array_find: finds the positions the array has");
		if (found)
		{
			VF_REACH("found");
			VF_ENSURES(pos - data == child[i], "json_array_find: the value at the position");
		} else
			VF_REACH("not found");
		break;
	case 1:
		VF_ENSURES(json_array_has(data, i) == (i < children), "json_array_has");
		break;
	case 2:
		VF_ENSURES(json_array_size(data) == children, "json_array_size");
		break;
	case 3:
		found = json_array_last(&pos);
		VF_ENSURES(found == (children > 0), "json_array_last: any value");
		if (found)
			VF_ENSURES(pos - data == child[children - 1], "json_array_last: the last value");
		break;
	}
}

static bool key_is(int i, const char* name, int size)
{
#ifdef VF_CBMC
	return match[key[i] + 1];
#endif
	if (key_size[i] != size)
		return false;
	for (int j = 0; j < 2; j++)
		if (j < size && (char)data[key[i] + 1 + j] != name[j])
			return false;
	return true;
}

/* contract json_obj_*: the value of the first such key */
VF_PROOF(object)
{
	vf_init();
	int at = put(0, JSON_OBJ);
	children = vf_range(0, 3);
	for (int i = 0; i < 3; i++)
	{
		if (i == children)
			break;
		key[i] = at;
		key_size[i] = vf_range(0, 2);
		width[at] = 1 + key_size[i];
		at = put(at, JSON_STRINGV0 + key_size[i]);
#ifdef VF_CBMC
		data[at] = data[at + 1] = vf_u8();
		match[at] = vf_bool();
		at += key_size[i];
#else
		for (int j = 0; j < key_size[i]; j++)
			at = put(at, vf_bool() ? 'a' : 0xC0);
#endif
		child[i] = at;
		at = value(at);
	}
	put(at, JSON_OBJ_END);
	VF_MAY_THROW(false);

	char name[2];
	int  size = vf_range(0, 2);
	for (int i = 0; i < 2; i++)
		name[i] = vf_bool() ? 'a' : (char)0xC0;
	int i = 0;
	for (int n = 0; n < 3; n++)
		if (i < children && ! key_is(i, name, size))
			i++;
		else
			break;
	uint8_t* pos = data;
	bool found;
	switch (vf_range(0, 1)) {
	case 0:
		found = json_obj_find(&pos, name, size);
		VF_ENSURES(found == (i < children), "json_obj_find: finds the keys the object has");
		if (found)
		{
			VF_REACH("found");
			VF_ENSURES(pos - data == child[i], "json_obj_find: the value of the key");
		} else
			VF_REACH("not found");
		break;
	case 1:
		VF_ENSURES(json_obj_size(data) == children, "json_obj_size");
		break;
	}
}
