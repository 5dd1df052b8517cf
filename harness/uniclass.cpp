// P34: character classes, normalisation and UTF-8.  Commands:
//   classes                the ranges of every class
//   plain cp,cp,...        all code points but these (which decompose or fold)
//   normal cp,cp,...       what these normalise to
//   length                 every code point through UTF-8 and back
//   encode cp,...          decode bytes ...
#include <functional>
#include <set>
#include "common.h"
#include "ascii.h"
#include "unicode.h"
#include "asserts.h"
using namespace JASS;
static std::vector<uint32_t> numbers(const std::string &s)
	{
	std::vector<uint32_t> r;
	std::istringstream in(s);
	std::string x;
	while (std::getline(in, x, ','))
		r.push_back(std::stoul(x));
	return r;
	}
static std::string ranges(std::function<bool(uint32_t)> f, uint32_t top)
	{
	std::vector<std::string> r;
	int64_t from = -1;
	for (uint32_t c = 0; c <= top + 1; c++)
		{
		bool in = c <= top && f(c);
		if (in && from < 0)
			from = c;
		if (!in && from >= 0)
			{
			r.push_back("[" + std::to_string(from) + "," + std::to_string(c - 1) + "]");
			from = -1;
			}
		}
	return vf::jlist(r);
	}
static std::vector<uint32_t> normal(uint32_t c)
	{
	std::vector<uint32_t> r, s;
	for (const uint32_t *f = unicode::tocasefold(c); *f != 0; f++)
		r.push_back(*f);
	unicode::tocasefold(s, c);
	return r == s ? r : std::vector<uint32_t>{0xFFFFFF};
	}
int main(int argc, char *argv[])
	{
	vf::scenario sc(argv[1]);
	vf::trace out(argv[2]);
	const uint32_t top = 0x10FFFF;
	for (auto &w : sc.lines)
		{
		if (w[0] == "classes")
			{
#define CLASS(n) out.emit(vf::event("class").str("name", #n).raw("ranges", ranges([](uint32_t c) { return unicode::n(c) != 0; }, top)))
			CLASS(isalpha); CLASS(isalnum); CLASS(isdigit); CLASS(isupper); CLASS(islower); CLASS(iscntrl); CLASS(isgraph); CLASS(ispunct); CLASS(isuspace); CLASS(isspace);
			CLASS(ismark); CLASS(issymbol); CLASS(isxdigit); CLASS(isxmlnamestartchar); CLASS(isxmlnamechar);
#define ASCII(n) out.emit(vf::event("ascii").str("name", #n).raw("ranges", ranges([](uint32_t c) { return ascii::n((uint8_t)c) != 0; }, 255)))
			ASCII(isascii); ASCII(isalpha); ASCII(isalnum); ASCII(isdigit); ASCII(isupper); ASCII(islower); ASCII(iscntrl); ASCII(isgraph); ASCII(isprint); ASCII(ispunct); ASCII(isspace);
			ASCII(isxdigit); ASCII(isDNAbase); ASCII(isvowel); ASCII(isvowely);
			std::vector<uint32_t> low, high;
			for (uint32_t c = 0; c < 256; c++)
				{
				low.push_back(ascii::tolower((uint8_t)c));
				high.push_back(ascii::toupper((uint8_t)c));
				}
			out.emit(vf::event("cased").str("name", "tolower").raw("map", vf::jnums(low)));
			out.emit(vf::event("cased").str("name", "toupper").raw("map", vf::jnums(high)));
			}
		if (w[0] == "plain")
			{
			auto list = numbers(w[1]);
			std::set<uint32_t> but(list.begin(), list.end());
			std::vector<uint32_t> neither;
			auto itself = ranges([&](uint32_t c)
				{
				if (but.count(c))
					return unicode::isalnum(c) != 0;
				auto n = normal(c);
				if (!n.empty() && n != std::vector<uint32_t>{c})
					neither.push_back(c);
				return n == std::vector<uint32_t>{c};
				}, top);
			if (neither.size() > 50)
				neither.resize(50);
			out.emit(vf::event("plain").raw("itself", itself).raw("neither", vf::jnums(neither)));
			}
		if (w[0] == "normal")
			{
			std::vector<std::string> rows;
			for (auto c : numbers(w[1]))
				rows.push_back("[" + std::to_string(c) + "," + vf::jnums(normal(c)) + "]");
			out.emit(vf::event("normal").raw("rows", vf::jlist(rows)));
			}
		if (w[0] == "length")
			{
			std::vector<std::string> rows;
			bool back = true;
			size_t was = 0;
			uint32_t from = 0;
			for (uint32_t c = 0; c <= top + 1; c++)
				{
				uint8_t *buffer = new uint8_t[4];
				size_t n = c > top ? 0 : unicode::codepoint_to_utf8(buffer, buffer + 4, c), took;
				if (n != was && was != 0)
					{
					rows.push_back("[" + std::to_string(from) + "," + std::to_string(c - 1) + "," + std::to_string(was) + "]");
					from = c;
					}
				was = n;
				if (c <= top)
					{
					back = back && n == unicode::utf8_bytes(c) && unicode::utf8_to_codepoint(buffer, buffer + n, took) == c && took == n && unicode::isutf8(buffer, buffer + n) == n;
					if (n > 1)
						back = back && unicode::codepoint_to_utf8(buffer, buffer + n - 1, c) == 0;
					}
				delete [] buffer;
				}
			out.emit(vf::event("length").raw("rows", vf::jlist(rows)).boolean("back", back));
			}
		if (w[0] == "encode")
			{
			std::vector<std::string> rows;
			for (auto c : numbers(w[1]))
				{
				uint8_t buffer[4];
				size_t n = unicode::codepoint_to_utf8(buffer, buffer + 4, c);
				rows.push_back("[" + std::to_string(c) + "," + vf::jbytes(buffer, n) + "]");
				}
			out.emit(vf::event("encode").raw("rows", vf::jlist(rows)));
			}
		if (w[0] == "decode")
			{
			std::vector<std::string> rows;
			for (size_t i = 1; i < w.size(); i++)
				{
				std::string s = vf::unpct(w[i]);
				uint8_t *exact = new uint8_t[s.size()];
				memcpy(exact, s.data(), s.size());
				size_t took;
				uint32_t c = unicode::utf8_to_codepoint(exact, exact + s.size(), took);
				rows.push_back("[" + vf::jbytes(s) + "," + std::to_string(took) + "," + std::to_string(c) + "," + std::to_string(unicode::isutf8(exact, exact + s.size())) + "]");
				delete [] exact;
				}
			out.emit(vf::event("decode").raw("rows", vf::jlist(rows)));
			}
		}
	return 0;
	}
