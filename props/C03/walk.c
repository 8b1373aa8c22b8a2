//@proof scalar unwind=10 unwindfn=json_skip:2,doc_value:2 covers=json_skip,json_sizeof
//@proof skip kind=bounded unwind=6 timeout=300 bound=documents_of_at_most_4_tokens,_2_nested_containers covers=json_skip,json_sizeof
//@proof array kind=native fuzz=30000 bound=seeded_random_documents_of_at_most_40_tokens covers=json_array_find,json_array_has,json_array_last,json_array_size
//@proof object kind=native fuzz=30000 bound=seeded_random_documents_of_at_most_40_tokens covers=json_obj_find,json_obj_size,json_obj_has,json_obj_find_path
//@proof none unwind=10 covers=json_array_find,json_array_has,json_array_last,json_array_size,json_obj_find,json_obj_has,json_obj_find_path
//@proof path kind=native fuzz=30000 bound=seeded_random_objects_of_at_most_40_tokens covers=json_obj_find_path,json_obj_has
//@nflags -DDOC_TOKENS=40 -DDOC_SIZE=400 -DDOC_DEPTH=5
//@flags -DVF_NO_REALLOC
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifdef VF_CBMC
#define DOC_TOKENS 4
#define DOC_SIZE 9
#define DOC_DEPTH 2
#endif
#include "doc.h"

static Doc doc;

/* contract json_skip: moves exactly behind the value */
static void check_skip(void)
{
	for (int i = 0; i < 1; i++)
		if (doc.size < DOC_SIZE)
			doc.data[doc.size] = vf_u8();
	VF_MAY_THROW(false);
	uint8_t* pos = doc.data;
	json_skip(&pos);
	VF_ENSURES(pos == doc.data + doc.size, "json_skip: ends right behind the value");
	VF_ENSURES(json_sizeof(doc.data) == doc.size, "json_sizeof: size of the value");
}

VF_PROOF(scalar)
{
	vf_init();
	doc_value(&doc, 0, true);
	VF_REACH("value");
	check_skip();
}

VF_PROOF(skip)
{
	vf_init();
	small = true;
	doc_value(&doc, 0, false);
	VF_REACH("value");
	check_skip();
}

VF_PROOF(array)
{
	vf_init();
#ifndef VF_CBMC
	small = true;
	doc_value(&doc, 7, false);
	VF_MAY_THROW(false);
	int at = vf_range(0, doc.children);
	uint8_t* pos = doc.data;
	bool found = json_array_find(&pos, at);
	VF_ENSURES(found == (at < doc.children), "json_array_find: finds the positions the array has");
	if (found)
	{
		VF_REACH("found");
		VF_ENSURES(pos == doc.data + doc.child[at], "json_array_find: the value at the position");
	} else
		VF_REACH("not found");
	VF_ENSURES(json_array_has(doc.data, at) == found, "json_array_has");
	VF_ENSURES(json_array_size(doc.data) == doc.children, "json_array_size");
	pos = doc.data;
	found = json_array_last(&pos);
	VF_ENSURES(found == (doc.children > 0), "json_array_last: any value");
	if (found)
		VF_ENSURES(pos == doc.data + doc.child[doc.children - 1], "json_array_last: the last value");
#else
	VF_REACH("-");
#endif
}

/* size and content of the string at off */
static int string_at(int off, char** data)
{
	int size = 0;
	int c = doc.data[off];
	if (c <= JSON_STRINGV31)
		size = c - JSON_STRINGV0, off += 1;
	else
	if (c == JSON_STRING8)
		size = doc.data[off + 1], off += 2;
	else
	if (c == JSON_STRING16)
		size = doc.data[off + 1], off += 3;
	else
		size = doc.data[off + 1], off += 5;
	*data = (char*)doc.data + off;
	return size;
}

static bool key_is(int i, const char* name, int size)
{
	char* key;
	if (string_at(doc.key[i], &key) != size)
		return false;
	for (int j = 0; j < size; j++)
		if (key[j] != name[j])
			return false;
	return true;
}

VF_PROOF(object)
{
	vf_init();
#ifndef VF_CBMC
	small = true;
	doc_value(&doc, 5, false);
	VF_MAY_THROW(false);
	char name[2];
	int  size = vf_range(0, 2);
	for (int i = 0; i < 2; i++)
		name[i] = vf_bool() ? 'a' : (char)0xC0;
	int at = 0;
	while (at < doc.children && ! key_is(at, name, size))
		at++;
	uint8_t* pos = doc.data;
	bool found = json_obj_find(&pos, name, size);
	VF_ENSURES(found == (at < doc.children), "json_obj_find: finds the keys the object has");
	if (found)
	{
		VF_REACH("found");
		VF_ENSURES(pos == doc.data + doc.child[at], "json_obj_find: the value of the key");
	} else
		VF_REACH("not found");
	Str path;
	str_set(&path, name, size);
	pos = doc.data;
	VF_ENSURES(json_obj_find_path(&pos, &path) == found, "json_obj_find_path: one name");
	if (found)
		VF_ENSURES(pos == doc.data + doc.child[at], "json_obj_find_path: the value of the key");
	VF_ENSURES(json_obj_has(doc.data, &path) == found, "json_obj_has");
	VF_ENSURES(json_obj_size(doc.data) == doc.children, "json_obj_size");
#else
	VF_REACH("-");
#endif
}

/* a missing (null) document has nothing */
VF_PROOF(none)
{
	vf_init();
	VF_MAY_THROW(false);
	uint8_t null = JSON_NULL;
	uint8_t* pos = &null;
	Str path;
	str_set(&path, "a", 1);
	VF_ENSURES(! json_array_find(&pos, vf_range(0, 10)), "null: no values");
	VF_ENSURES(! json_array_has(&null, vf_range(0, 10)), "null: no values");
	VF_ENSURES(! json_array_last(&pos), "null: no last value");
	VF_ENSURES(! json_array_size(&null), "null: size");
	VF_ENSURES(! json_obj_find(&pos, "a", 1), "null: no keys");
	VF_ENSURES(! json_obj_find_path(&pos, &path), "null: no keys");
	VF_ENSURES(! json_obj_has(&null, &path), "null: no keys");
	VF_REACH("checked");
}

/* paths into nested objects: {k0: {k1: ... }} with other keys around */
static int nest(Buf* buf, int depth, char* path, int* path_size, int* target, bool* has)
{
	encode_obj(buf);
	int keys = vf_range(0, 3);
	int next = vf_range(0, 2 + (keys > 0));
	int at = -1;
	for (int i = 0; i < keys; i++)
	{
		char key[8];
		int size = snprintf(key, sizeof(key), "%c%d", 'a' + (int)vf_range(0, 1), i);
		encode_raw(buf, key, size);
		if (i != next)
		{
			if (vf_bool())
			{
				Str s;
				str_set(&s, "a0", 2);
				encode_array(buf);
				encode_string(buf, &s);
				encode_integer(buf, vf_u64());
				encode_array_end(buf);
			} else
				encode_integer(buf, vf_u64());
			continue;
		}
		at = i;
		if (*path_size)
			path[(*path_size)++] = '.';
		memcpy(path + *path_size, key, size);
		*path_size += size;
		*target = buf_size(buf);
		if (depth > 0 && vf_bool())
			nest(buf, depth - 1, path, path_size, target, has);
		else
		if (vf_bool())
		{
			encode_null(buf);
			if (vf_bool())
			{
				/* one more name */
				memcpy(path + *path_size, ".z", 2);
				*path_size += 2;
				*has = false;
			}
		} else
			encode_integer(buf, vf_u64());
	}
	if (at == -1)
	{
		/* a name which no key has */
		if (*path_size)
			path[(*path_size)++] = '.';
		path[(*path_size)++] = 'a';
		*has = false;
	}
	encode_obj_end(buf);
	return at;
}

VF_PROOF(path)
{
	vf_init();
#ifndef VF_CBMC
	Buf buf;
	buf_init(&buf);
	buf_reserve(&buf, 4096);
	char path[256];
	int  path_size = 0;
	int  target = 0;
	bool has = true;
	nest(&buf, 4, path, &path_size, &target, &has);
	VF_REACH("object");
	VF_MAY_THROW(false);
	Str str;
	str_set(&str, path, path_size);
	uint8_t* pos = buf.start;
	VF_ENSURES(json_obj_find_path(&pos, &str) == has, "json_obj_find_path: finds the paths the object has");
	if (has)
		VF_ENSURES(pos == buf.start + target, "json_obj_find_path: the value at the path");
	VF_ENSURES(json_obj_has(buf.start, &str) == has, "json_obj_has: a path");
	buf_free_memory(&buf);
#else
	VF_REACH("-");
#endif
}
