//@proof string kind=bounded unwind=8 timeout=300 bound=texts_of_at_most_5_bytes covers=json_string_read
//@flags -DVF_NO_REALLOC
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#include "amelie/runtime/json/json_parser.c"

/* contract json_string_read: the string ends at the first quote which is not
 * escaped, and the reader never goes beyond the text */
VF_PROOF(string)
{
	vf_init();
	char text[6];
	int quote = vf_bool() ? '"' : '\'';
	int n = vf_range(0, 5);
	text[0] = quote;
	for (int i = 1; i < 6; i++)
		text[i] = vf_bool() ? quote : vf_bool() ? '\\' : (char)vf_range(0, 0x7F);
	/* reference */
	int  last = 0;
	bool bad = false;
	bool slash = false;
	bool any = false;
	for (int i = 1; i < 6; i++)
	{
		if (i > n || last || bad)
			break;
		if (text[i] == '\n')
			bad = true;
		else
		if (text[i] == quote && ! slash)
			last = i;
		else
		{
			slash = text[i] == '\\' && ! slash;
			any |= text[i] == '\\';
		}
	}
	Json json;
	memset(&json, 0, sizeof(json));
	json.pos = text;
	json.end = text + 1 + n;
	Str str;
	bool unescape = false;
	VF_MAY_THROW(! last);
	json_string_read(&json, &str, quote, &unescape);
	VF_ENSURES(last, "json_string_read: refuses a string which does not end");
	VF_REACH("read");
	VF_ENSURES(str_of(&str) == text + 1 && str_size(&str) == last - 1, "json_string_read: the text between the quotes");
	VF_ENSURES(json.pos == text + last + 1, "json_string_read: ends behind the quote");
	VF_ENSURES(unescape == any, "json_string_read: finds escapes");
}
