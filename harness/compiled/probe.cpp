// Linked with the sources of a compiled index: says what they hold, as JSON.
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <vector>
#include "query_heap.h"
#include "JASS_vocabulary.h"
extern std::vector<std::string> primary_key;
static void bytes(const char *s)
	{
	printf("[");
	for (const char *c = s; *c != '\0'; c++)
		printf("%s%d", c == s ? "" : ",", (unsigned char)*c);
	printf("]");
	}
int main(void)
	{
	printf("\"keys\":[");
	for (size_t i = 0; i < primary_key.size(); i++)
		{
		printf("%s", i == 0 ? "" : ",");
		bytes(primary_key[i].c_str());
		}
	printf("],\"terms\":[");
	for (uint64_t t = 0; t < dictionary_length; t++)
		{
		JASS::query_heap q;
		dictionary[t].method(q);
		printf("%s[", t == 0 ? "" : ",");
		bytes(dictionary[t].term);
		printf(",[");
		for (size_t i = 0; i < q.seen.size(); i++)
			printf("%s[%lld,%lld]", i == 0 ? "" : ",", q.seen[i].first, q.seen[i].second);
		printf("]]");
		}
	printf("]");
	return 0;
	}
