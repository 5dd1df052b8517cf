// Black-box driver of index construction, impact ordering, quantisation, and both on-disk formats.
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include <algorithm>
#include <map>
#include "common.h"
#include "index_manager_sequential.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "serialise_integers.h"
#include "serialise_forward_index.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "quantize.h"
#include "quantize_none.h"
#include "ranking_function_atire_bm25.h"

using namespace vf;
using index_t = JASS::index_manager_sequential;

static std::string jslice(const JASS::slice &s) { return jbytes(s.address(), s.size()); }

// records what an iteration hands to its callback
class recorder : public JASS::index_manager::delegate
	{
	public:
		std::vector<std::string> terms, keys;
		JASS::index_postings_impact *ordered = nullptr;
		recorder(size_t n) : delegate(n) {}
		void operator()(const JASS::slice &term, const JASS::index_postings &postings, JASS::compress_integer::integer df, JASS::compress_integer::integer *ids, JASS::index_postings_impact::impact_type *tfs) override
			{
			std::vector<uint32_t> d(ids, ids + df), f(tfs, tfs + df);
			std::string x = "{\"t\":" + jslice(term) + ",\"d\":" + jnums(d) + ",\"f\":" + jnums(f);
			if (ordered)
				{
				postings.impact_order(documents, *ordered, df, ids, tfs);
				std::vector<std::string> g;
				for (const auto &h : *ordered)
					{
					std::vector<uint32_t> docs(h.begin(), h.end());
					g.push_back("[" + std::to_string(h.impact_score) + "," + jnums(docs) + "]");
					}
				x += ",\"g\":" + jlist(g);
				}
			terms.push_back(x + "}");
			}
		void operator()(size_t id, const JASS::slice &key) override { keys.push_back("[" + std::to_string(id) + "," + jslice(key) + "]"); }
		void finish(void) override {}
	};

// a ranking function with small integer scores
struct toy_ranker
	{
	uint32_t a, b, c, df = 0, tf = 0;
	void compute_idf_component(uint32_t d, uint32_t) { df = d; }
	void compute_tf_component(uint32_t t) { tf = t; }
	double compute_score(uint32_t doc, uint32_t t) { return a * tf + b * (doc % 7) + c * df; }
	};

// remembers every score an underlying ranking function gives
struct memory_bm25 : public JASS::ranking_function_atire_bm25
	{
	std::vector<double> *scores = nullptr;
	using JASS::ranking_function_atire_bm25::ranking_function_atire_bm25;
	double compute_score(uint32_t doc, uint16_t t)
		{
		double s = JASS::ranking_function_atire_bm25::compute_score(doc, t);
		if (scores)
			scores->push_back(s);
		return s;
		}
	};

static std::string slurp(const std::string &f)
	{
	std::ifstream in(f, std::ios::binary);
	std::stringstream b;
	b << in.rdbuf();
	return b.str();
	}

template <typename READER> static void read_back(trace &t, const std::string &dir, int version, const std::vector<std::string> &probes)
	{
	READER in(false);
	event e("read");
	e.num("version", version).str("dir", dir);
	if (in.read_index(dir) == 0)
		{
		t.emit(e.boolean("ok", false));
		return;
		}
	std::string name;
	int32_t d = 0;
	auto codec = in.codex(name, d);
	std::vector<std::string> keys, terms, found;
	for (const auto &k : in.primary_keys())
		keys.push_back(jbytes(k));
	std::vector<uint32_t> buffer(in.document_count() + 4096);
	std::vector<typename READER::segment_header> heads(2048);
	auto describe = [&](typename READER::metadata &m)
		{
		uint32_t lo = 0, hi = 0, df = 0;
		size_t n = in.get_segment_list(&heads[0], m, 1, lo, hi, df);
		std::vector<std::string> segs;
		for (size_t i = 0; i < n && i < heads.size(); i++)
			{
			auto &h = heads[i];
			size_t f = h.segment_frequency;
			if (f > buffer.size() - 2048)
				{
				segs.push_back("[" + std::to_string(h.impact) + ",[]]");
				continue;
				}
			codec->decode(&buffer[0], f, in.postings() + h.offset, h.end - h.offset);
			std::vector<uint32_t> docs;
			uint32_t at = 0;
			for (size_t j = 0; j < f; j++)			// every codec is given differences
				docs.push_back(at += buffer[j]);
			segs.push_back("[" + std::to_string(h.impact) + "," + jnums(docs) + "]");
			}
		return "{\"t\":" + jslice(m.term) + ",\"df\":" + std::to_string(df) + ",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"s\":" + jlist(segs) + "}";
		};
	for (auto m = in.begin(); m != in.end(); ++m)
		terms.push_back(describe(*m));
	for (const auto &p : probes)
		{
		JASS::query_term q;
		typename READER::metadata m;
		q = JASS::query_term(JASS::slice((void *)p.data(), p.size()));
		bool yes = in.postings_details(m, q);
		found.push_back("{\"p\":" + jbytes(p) + ",\"yes\":" + (yes ? "true" : "false") + (yes ? ",\"m\":" + describe(m) : std::string()) + "}");
		}
	t.emit(e.boolean("ok", true).num("docs", in.document_count()).str("codec", name).num("dness", d).raw("keys", jlist(keys)).raw("terms", jlist(terms)).raw("probes", jlist(found)));
	}

int main(int argc, char **argv)
	{
	scenario s(argv[1]);
	trace t(argv[2]);
	std::unique_ptr<index_t> index(new index_t);
	std::vector<std::string> held;			// key storage for the keys-first route
	held.reserve(100000);
	auto token_of = [](const std::string &lexeme, uint32_t count)
		{
		JASS::parser::token token;
		token.lexeme = JASS::slice((void *)lexeme.data(), lexeme.size());
		token.count = count;
		return token;
		};
	for (const auto &w : s.lines)
		{
		const std::string &c = w[0];
		auto arg = [&](size_t i) { return i < w.size() ? unpct(w[i]) : std::string(); };
		auto num = [&](size_t i) { return strtoull(w.at(i).c_str(), nullptr, 10); };
		if (c == "new")
			{
			index.reset();
			index.reset(new index_t);
			t.emit(event("new"));
			}
		else if (c == "begin")
			{
			std::string k = arg(1);
			index->begin_document(JASS::slice((void *)k.data(), k.size()));
			t.emit(event("begin").raw("key", jbytes(k)));
			std::fill(k.begin(), k.end(), '#');			// the caller's buffer is reused
			}
		else if (c == "tok")				// tok lexeme count
			{
			std::string l = arg(1);
			index->term(token_of(l, num(2)));
			t.emit(event("tok").raw("t", jbytes(l)).num("c", num(2)));
			std::fill(l.begin(), l.end(), '#');
			}
		else if (c == "end")
			{
			index->end_document(num(1));
			t.emit(event("end").num("len", num(1)));
			}
		else if (c == "skip")				// skip n: n documents called "s", of no indexed words
			{
			for (uint64_t i = 0; i < num(1); i++)
				{
				std::string k = "s";
				index->begin_document(JASS::slice((void *)k.data(), k.size()));
				index->end_document(1);
				}
			t.emit(event("skip").num("n", num(1)));
			}
		else if (c == "keys")				// keys key... (each of length 10)
			{
			std::vector<JASS::slice> keys;
			std::vector<std::string> out;
			std::vector<JASS::compress_integer::integer> lengths(1, 0);
			for (size_t i = 1; i < w.size(); i++)
				{
				held.push_back(arg(i));
				keys.push_back(JASS::slice((void *)held.back().data(), held.back().size()));
				lengths.push_back(10);
				out.push_back(jbytes(held.back()));
				}
			index->set_document_length_vector(lengths);
			index->set_primary_keys(keys);
			t.emit(event("keys").raw("keys", jlist(out)));
			}
		else if (c == "list")				// list lexeme doc:tf...
			{
			std::string l = arg(1);
			std::vector<JASS::posting> list;
			std::vector<std::string> out;
			uint32_t prior = 0;
			for (size_t i = 2; i < w.size(); i++)
				{
				uint32_t d, f;
				sscanf(w[i].c_str(), "%u:%u", &d, &f);
				JASS::posting p;
				p.docid = d - prior;
				p.term_frequency = f;
				prior = d;
				list.push_back(p);
				out.push_back("[" + std::to_string(d) + "," + std::to_string(f) + "]");
				}
			index->term(token_of(l, 1), list);
			t.emit(event("list").raw("t", jbytes(l)).raw("p", jlist(out)));
			}
		else if (c == "iterate" || c == "impacts")
			{
			recorder r(index->get_highest_document_id());
			JASS::allocator_pool memory;
			std::unique_ptr<JASS::index_postings_impact> order;
			if (c == "impacts")
				{
				order.reset(new JASS::index_postings_impact(index->get_highest_document_id(), memory));
				r.ordered = order.get();
				}
			index->iterate(r);
			std::vector<uint32_t> lens(index->get_document_length_vector().begin(), index->get_document_length_vector().end());
			t.emit(event(c).num("docs", index->get_highest_document_id()).raw("lens", jnums(lens)).raw("terms", jlist(r.terms)).raw("keys", jlist(r.keys)));
			}
		else if (c == "render")
			{
			std::ostringstream out;
			out << *index;
			t.emit(event("render").raw("text", jbytes(out.str())));
			}
		else if (c == "quantize")			// quantize a b c
			{
			uint32_t n = index->get_highest_document_id();
			std::shared_ptr<toy_ranker> ranker(new toy_ranker{(uint32_t)num(1), (uint32_t)num(2), (uint32_t)num(3)});
			JASS::quantize<toy_ranker> q(n, ranker);
			index->iterate(q);
			double lo, hi;
			q.get_bounds(lo, hi);
			recorder r(n);
			index->iterate(q, r);
			t.emit(event("quantize").raw("w", "[" + w[1] + "," + w[2] + "," + w[3] + "]").num("lo", (long long)lo).num("hi", (long long)hi).raw("terms", jlist(r.terms)).raw("keys", jlist(r.keys)));
			}
		else if (c == "quantize_none")
			{
			uint32_t n = index->get_highest_document_id();
			std::shared_ptr<toy_ranker> ranker(new toy_ranker{1, 1, 1});
			JASS::quantize_none<toy_ranker> q(n, ranker);
			index->iterate(q);
			recorder r(n);
			index->iterate(q, r);
			t.emit(event("quantize_none").raw("terms", jlist(r.terms)).raw("keys", jlist(r.keys)));
			}
		else if (c == "bm25")				// bm25 k1*100 b*100: impacts of real BM25, with the order of the scores they come from
			{
			uint32_t n = index->get_highest_document_id();
			std::shared_ptr<memory_bm25> ranker(new memory_bm25(num(1) / 100.0, num(2) / 100.0, index->get_document_length_vector()));
			JASS::quantize<memory_bm25> q(n, ranker);
			index->iterate(q);
			std::vector<double> scores;
			ranker->scores = &scores;
			recorder r(n);
			index->iterate(q, r);
			std::vector<double> sorted = scores;
			std::sort(sorted.begin(), sorted.end());
			sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
			std::vector<size_t> rank;
			for (double x : scores)
				rank.push_back(std::lower_bound(sorted.begin(), sorted.end(), x) - sorted.begin());
			t.emit(event("bm25").num("distinct", sorted.size()).raw("rank", jnums(rank)).raw("terms", jlist(r.terms)).raw("keys", jlist(r.keys)));
			}
		else if (c == "write")				// write dir version codec alignment bytes?
			{
			char home[4096];
			if (!getcwd(home, sizeof(home)))
				exit(3);
			mkdir(w[1].c_str(), 0777);
			if (chdir(w[1].c_str()))
				exit(3);
			auto codec = (JASS::serialise_jass_v1::jass_v1_codex)w[3][0];
			if (num(2) == 1)
				{
				JASS::serialise_jass_v1 out(index->get_highest_document_id(), codec, num(4));
				index->iterate(out);
				out.finish();
				}
			else
				{
				JASS::serialise_jass_v2 out(index->get_highest_document_id(), codec, num(4));
				index->iterate(out);
				out.finish();
				}
			event e("write");
			e.str("dir", w[1]).num("version", num(2)).str("codec", w[3]).num("align", num(4));
			if (w.size() > 5 && w[5] == "bytes")
				e.raw("vocab", jbytes(slurp("CIvocab.bin"))).raw("strings", jbytes(slurp("CIvocab_terms.bin"))).raw("postings", jbytes(slurp("CIpostings.bin"))).raw("doclist", jbytes(slurp("CIdoclist.bin")));
			t.emit(e);
			if (chdir(home))
				exit(3);
			}
		else if (c == "read")				// read dir version probe probe...
			{
			std::vector<std::string> probes;
			for (size_t i = 3; i < w.size(); i++)
				probes.push_back(unpct(w[i]));
			if (num(2) == 1)
				read_back<JASS::deserialised_jass_v1>(t, w[1], 1, probes);
			else
				read_back<JASS::deserialised_jass_v2>(t, w[1], 2, probes);
			}
		else if (c == "integers")			// the raw postings dump
			{
			{
			JASS::serialise_integers out(index->get_highest_document_id());
			index->iterate(out);
			out.finish();
			}
			t.emit(event("integers").raw("bytes", jbytes(slurp("postings.bin"))));
			unlink("postings.bin");
			}
		else if (c == "forward")			// the forward index
			{
			{
			JASS::serialise_forward_index out(index->get_highest_document_id());
			index->iterate(out);
			out.finish();
			}
			t.emit(event("forward").raw("bytes", jbytes(slurp("JASS_forward.index"))));
			unlink("JASS_forward.index");
			}
		else
			return 3;
		}
	return 0;
	}
