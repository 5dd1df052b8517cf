// What the library says of every character beyond ASCII that a text can contain.  Include after parser.h.
#pragma once
#include "common.h"
#include "unicode.h"
using namespace JASS;
static std::string row(uint32_t cp)
	{
	std::string r = "[" + std::to_string(cp) + "," + std::to_string((unicode::isalpha(cp) ? 1 : 0) + (unicode::isdigit(cp) ? 2 : 0) + (unicode::isspace(cp) ? 4 : 0) + (unicode::isxmlnamestartchar(cp) ? 8 : 0)
		+ (unicode::isxmlnamechar(cp) ? 16 : 0) + (unicode::isalnum(cp) ? 32 : 0)) + ",[";
	bool first = true;
	for (const uint32_t *f = unicode::tocasefold(cp); *f != 0; f++)
		{
		r += (first ? "" : ",") + std::to_string(*f);
		first = false;
		}
	return r + "]]";
	}
static std::string classes(const std::string &text)
	{
	std::vector<uint32_t> all = {unicode::replacement_character};
	const char *end = text.data() + text.size();
	for (const char *at = text.data(); at < end; at++)
		{
		size_t bytes;
		uint32_t cp = unicode::utf8_to_codepoint(at, end, bytes);
		if (cp >= 128)
			{
			all.push_back(cp);
			for (const uint32_t *f = unicode::tocasefold(cp); *f != 0; f++)		// a topic's words are split a second time
				if (*f >= 128)
					all.push_back(*f);
			}
		}
	std::sort(all.begin(), all.end());
	all.erase(std::unique(all.begin(), all.end()), all.end());
	std::vector<std::string> rows;
	for (auto cp : all)
		rows.push_back(row(cp));
	return vf::jlist(rows);
	}
