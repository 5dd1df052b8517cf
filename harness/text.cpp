// P16, P18-P21: documents, tokens and queries.  Commands (words are percent-encoded):
//   parse doc|fasta:K|json|coil after text...   tokens of each text, one parser for all of them, `after` follows the text in memory
//   query query|raw text...                     one parser for all of them
//   split trec|html|fasta|warc|coil size text   the documents in a text, read through a buffer of `size` bytes
//   coil size id,length,seed ...                a large archive, read back
//   stem word...
#include <memory>
#include <sstream>
#include <limits>
#include <cstddef>
#include <algorithm>
#include <iostream>
#include "common.h"
#include "asserts.h"
#include "parser.h"
#include "parser_fasta.h"
#include "parser_unicoil_json.h"
#include "parser_query.h"
#include "stem_porter.h"
#include "instream_memory.h"
#include "instream_document_trec.h"
#include "instream_document_html.h"
#include "instream_document_fasta.h"
#include "instream_document_warc.h"
#include "instream_document_unicoil_json.h"
#include "classes.h"
using namespace JASS;
static void parse(vf::trace &out, const std::vector<std::string> &w)
	{
	std::unique_ptr<parser> p;
	long k = 0;
	std::string kind = w[1];
	if (kind.substr(0, 6) == "fasta:")
		{
		k = strtol(kind.c_str() + 6, nullptr, 10);
		kind = "fasta";
		p.reset(new parser_fasta((size_t)k));
		}
	else if (kind == "json")
		p.reset(new parser_unicoil_json);
	else
		p.reset(new parser);
	std::string after = vf::unpct(w[2].substr(1));
	for (size_t i = 3; i < w.size(); i++)
		{
		std::string text = vf::unpct(w[i].substr(1));
		std::string whole = text + after + std::string(64, '\0');
		document d;
		d.contents = slice((void *)whole.data(), text.size());
		p->set_document(d);
		std::vector<std::string> tokens;
		bool ended = false;
		size_t most = 4 * text.size() + 16;
		while (tokens.size() < most)
			{
			const auto &t = p->get_next_token();
			if (t.type == parser::token::eof)
				{
				ended = true;
				break;
				}
			tokens.push_back("[" + std::to_string((int)t.type) + "," + vf::jbytes(t.lexeme.address(), t.lexeme.size()) + "," + std::to_string((long)t.count) + "]");
			}
		out.emit(vf::event("parse").str("kind", kind).num("k", k).raw("text", vf::jbytes(text)).raw("classes", classes(text)).raw("tokens", vf::jlist(tokens)).boolean("ended", ended));
		}
	}
static void queries(vf::trace &out, const std::vector<std::string> &w)
	{
	allocator_pool memory(1024 * 1024);
	parser_query p(memory);
	for (size_t i = 2; i < w.size(); i++)
		{
		std::string text = vf::unpct(w[i].substr(1));
		std::unique_ptr<query_term_list> list(new query_term_list);
		p.parse(*list, text, w[1] == "raw" ? parser_query::raw : parser_query::query);
		std::vector<std::string> terms;
		for (const auto &t : *list)
			terms.push_back("[" + vf::jbytes(t.token().address(), t.token().size()) + "," + std::to_string((long)t.frequency()) + "]");
		out.emit(vf::event("query").str("kind", w[1]).raw("text", vf::jbytes(text)).raw("classes", classes(text)).raw("terms", vf::jlist(terms)));
		}
	}
struct trec_small : public instream_document_trec
	{
	trec_small(std::shared_ptr<instream> &s, size_t n) : instream_document_trec(s, n, "DOC", "DOCNO") {}
	};
struct html_small : public instream_document_html
	{
	html_small(std::shared_ptr<instream> &s, size_t) : instream_document_html(s) {}
	};
struct fasta_small : public instream_document_fasta
	{
	fasta_small(std::shared_ptr<instream> &s, size_t n) : instream_document_fasta(s, n) {}
	};
static std::vector<std::string> documents(instream &from, size_t most, bool full, size_t &count, int &after)
	{
	std::vector<std::string> got;
	document d;
	count = 0;
	while (count < most)
		{
		d.rewind();
		from.read(d);
		if (d.isempty())
			break;
		count++;
		std::string key((char *)d.primary_key.address(), d.primary_key.size()), text((char *)d.contents.address(), d.contents.size());
		if (full)
			got.push_back("[" + vf::jbytes(key) + "," + vf::jbytes(text) + "]");
		else
			{
			uint32_t h = 17;
			for (unsigned char c : text)
				h = (h * 31 + c) % 1000003;
			got.push_back("[" + vf::jbytes(key) + "," + std::to_string(text.size()) + "," + std::to_string(h) + "]");
			}
		}
	// asking again at the end still says the end
	after = 0;
	for (int again = 0; again < 2; again++)
		{
		d.rewind();
		from.read(d);
		if (!d.isempty())
			after++;
		}
	return got;
	}
static void split(vf::trace &out, const std::vector<std::string> &w)
	{
	std::string text = vf::unpct(w[3].substr(1));
	size_t size = strtoul(w[2].c_str(), nullptr, 10);
	std::unique_ptr<uint8_t[]> copy(new uint8_t[text.size() + 1]);			// not followed by anything of ours
	memcpy(copy.get(), text.data(), text.size());
	std::shared_ptr<instream> memory(new instream_memory(copy.get(), text.size()));
	std::unique_ptr<instream> from;
	if (w[1] == "trec") from.reset(new trec_small(memory, size));
	if (w[1] == "html") from.reset(new html_small(memory, size));
	if (w[1] == "fasta") from.reset(new fasta_small(memory, size));
	if (w[1] == "warc") from.reset(new instream_document_warc(memory));
	if (w[1] == "coil") from.reset(new instream_document_unicoil_json(memory));
	size_t count;
	int after;
	auto got = documents(*from, text.size() + 4, true, count, after);
	out.emit(vf::event("split").str("kind", w[1]).num("size", (long)size).raw("text", vf::jbytes(text)).raw("docs", vf::jlist(got)).num("after", after));
	}
static void coil(vf::trace &out, const std::vector<std::string> &w)
	{
	std::string text;
	std::vector<std::string> wrote;
	bool last_line = w[1] != "bare";
	for (size_t i = 2; i < w.size(); i++)
		{
		unsigned long length, seed;
		char id[64];
		if (sscanf(w[i].c_str(), "%63[^,],%lu,%lu", id, &length, &seed) != 3)
			exit(9);
		std::string vector;
		while (vector.size() < length)
			{
			seed = seed * 6364136223846793005ul + 1442695040888963407ul;
			vector += (vector.empty() ? "\"t" : ", \"t") + std::to_string(seed >> 50) + "\": " + std::to_string((seed >> 33) % 300 + 1);
			}
		text += "{\"id\": \"" + std::string(id) + "\", \"contents\": \"x\", \"vector\": {" + vector + "}}";
		if (i + 1 < w.size() || last_line)
			text += "\n";
		uint32_t h = 17;
		for (unsigned char c : vector)
			h = (h * 31 + c) % 1000003;
		wrote.push_back("[" + vf::jbytes(std::string(id)) + "," + std::to_string(vector.size()) + "," + std::to_string(h) + "]");
		}
	std::shared_ptr<instream> memory(new instream_memory((uint8_t *)text.data(), text.size()));
	instream_document_unicoil_json from(memory);
	size_t count;
	int after;
	auto got = documents(from, w.size() * 2, false, count, after);
	out.emit(vf::event("coil").raw("wrote", vf::jlist(wrote)).raw("docs", vf::jlist(got)).num("after", after));
	}
static void stemming(vf::trace &out, const std::vector<std::string> &w)
	{
	stem_porter stemmer;
	for (size_t i = 1; i < w.size(); i++)
		{
		std::string word = vf::unpct(w[i].substr(1));
		parser::token t;
		memcpy(t.buffer, word.data(), word.size());
		t.lexeme = slice((void *)t.buffer, word.size());
		t.type = parser::token::alpha;
		t.count = 1;
		stemmer.tostem(t, t);
		out.emit(vf::event("stem").raw("word", vf::jbytes(word)).raw("stem", vf::jbytes(t.lexeme.address(), t.lexeme.size())));
		}
	}
int main(int argc, char *argv[])
	{
	vf::scenario sc(argv[1]);
	vf::trace out(argv[2]);
	for (auto &w : sc.lines)
		{
		if (w[0] == "parse") parse(out, w);
		if (w[0] == "query") queries(out, w);
		if (w[0] == "split") split(out, w);
		if (w[0] == "coil") coil(out, w);
		if (w[0] == "stem") stemming(out, w);
		}
	return 0;
	}
