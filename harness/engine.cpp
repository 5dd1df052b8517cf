// Black-box driver of the index writer / reader / search engine: reads a scenario, drives the public classes,
// and records one event per public call (name, arguments, result).
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <errno.h>
#include <memory>
#include "common.h"
#include "index_manager_sequential.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "quantize_none.h"
#include "JASS_anytime_api.h"

using namespace vf;

// With the thread sanitizer: the number of pairs of accesses by two threads to the same memory, one of them a
// write, that nothing orders.  (Without it, always 0.)
static int unordered_accesses;
extern "C" void __tsan_on_report(void *)
	{
	__atomic_add_fetch(&unordered_accesses, 1, __ATOMIC_SEQ_CST);
	}

struct term_def { std::string term; std::vector<std::pair<uint32_t, uint32_t>> postings; };
struct index_def
	{
	std::vector<std::string> keys;
	std::vector<term_def> terms;
	};

static void build(const index_def &def, const std::string &dir, int version, char codec, int alignment)
	{
	char home[4096];
	if (!getcwd(home, sizeof(home)))
		exit(3);
	mkdir(dir.c_str(), 0777);
	if (chdir(dir.c_str()))
		exit(3);
	{
	JASS::index_manager_sequential index;
	// The CIFF route: keys and lengths first, then one postings list (d-gaps) per term
	std::vector<JASS::slice> keys;
	std::vector<JASS::compress_integer::integer> lengths(1, 0);
	for (const auto &k : def.keys)
		{
		keys.push_back(JASS::slice(k.c_str()));
		lengths.push_back(10);
		}
	index.set_document_length_vector(lengths);
	index.set_primary_keys(keys);
	for (const auto &t : def.terms)
		{
		JASS::parser::token token;
		token.lexeme = JASS::slice(t.term.c_str());
		std::vector<JASS::posting> list;
		uint32_t prior = 0;
		for (const auto &[doc, tf] : t.postings)
			{
			JASS::posting p;
			p.docid = doc - prior;
			p.term_frequency = tf;
			list.push_back(p);
			prior = doc;
			}
		index.term(token, list);
		}
	std::vector<std::unique_ptr<JASS::index_manager::delegate>> exporters;
	auto highest = index.get_highest_document_id();
	if (version == 1)
		{
		JASS::serialise_jass_v1 out(highest, (JASS::serialise_jass_v1::jass_v1_codex)codec, alignment);
		index.iterate(out);
		out.finish();
		}
	else
		{
		JASS::serialise_jass_v2 out(highest, (JASS::serialise_jass_v1::jass_v1_codex)codec, alignment);
		index.iterate(out);
		out.finish();
		}
	}
	if (chdir(home))
		exit(3);
	}

// strict reader of one TREC run; anything not in the documented layout is reported as such
static std::string run_lines(const std::string &text)
	{
	std::vector<std::string> out;
	size_t at = 0;
	while (at < text.size())
		{
		size_t nl = text.find('\n', at);
		if (nl == std::string::npos)
			return "[{\"bad\":" + jstr(text.substr(at)) + "}]";
		std::string line = text.substr(at, nl - at);
		at = nl + 1;
		// <qid> Q0 <key> <rank> <rsv> JASSv2(ID:<docid>-><rsv>)     (qid may be empty)
		size_t a = line.find(" Q0 ");
		if (a == std::string::npos)
			return "[{\"bad\":" + jstr(line) + "}]";
		std::string qid = line.substr(0, a);
		std::string rest = line.substr(a + 4);
		std::istringstream in(rest);
		std::string key, name;
		long long rank, rsv, id = -1, rsv2 = -1;
		in >> key >> rank >> rsv >> name;
		int used = 0;
		if (!in || sscanf(name.c_str(), "JASSv2(ID:%lld->%lld)%n", &id, &rsv2, &used) != 2 || used != (int)name.size() || rsv != rsv2)
			return "[{\"bad\":" + jstr(line) + "}]";
		std::string canonical = qid + " Q0 " + key + " " + std::to_string(rank) + " " + std::to_string(rsv) + " JASSv2(ID:" + std::to_string(id) + "->" + std::to_string(rsv2) + ")";
		if (canonical != line)
			return "[{\"bad\":" + jstr(line) + "}]";
		out.push_back("{\"q\":" + jstr(qid) + ",\"k\":" + jstr(key) + ",\"n\":" + std::to_string(rank) + ",\"s\":" + std::to_string(rsv) + ",\"d\":" + std::to_string(id) + "}");
		}
	return jlist(out);
	}

static std::string result_json(const JASS_anytime_result &r)
	{
	return "{\"id\":" + jstr(r.query_id) + ",\"q\":" + jstr(r.query) + ",\"pp\":" + std::to_string(r.postings_processed) + ",\"lines\":" + run_lines(r.results_list) + "}";
	}

static std::string compose(const std::vector<std::string> &w, size_t from, std::vector<std::string> &ws)
	{
	std::string text = w[from] == "~" ? "" : unpct(w[from]);
	for (size_t i = from + 1; i < w.size(); i++)
		{
		ws.push_back(unpct(w[i]));
		text += (w[from] == "~" && i == from + 1 ? "" : " ") + ws.back();
		}
	return text;
	}

int main(int argc, char **argv)
	{
	scenario s(argv[1]);
	trace t(argv[2]);
	index_def def;
	std::unique_ptr<JASS_anytime_api> api(new JASS_anytime_api);
	std::vector<std::string> oracle;
	for (const auto &w : s.lines)
		{
		const std::string &c = w[0];
		auto arg = [&](size_t i) { return i < w.size() ? unpct(w[i]) : std::string(); };
		auto num = [&](size_t i) { return strtoull(w.at(i).c_str(), nullptr, 10); };
		if (c == "docs")						// docs key key key...
			{
			def = index_def();
			for (size_t i = 1; i < w.size(); i++)
				def.keys.push_back(unpct(w[i]));
			t.emit(event("docs").raw("keys", jstrs(def.keys)));
			}
		else if (c == "term")				// term name doc:impact doc:impact...
			{
			term_def td;
			td.term = arg(1);
			std::vector<std::string> p;
			for (size_t i = 2; i < w.size(); i++)
				{
				uint32_t d, f;
				sscanf(w[i].c_str(), "%u:%u", &d, &f);
				td.postings.push_back({d, f});
				p.push_back("[" + std::to_string(d) + "," + std::to_string(f) + "]");
				}
			def.terms.push_back(td);
			t.emit(event("term").str("t", td.term).raw("p", jlist(p)));
			}
		else if (c == "build")				// build dir version codec alignment
			{
			build(def, w[1], atoi(w[2].c_str()), w[3][0], atoi(w[4].c_str()));
			t.emit(event("build").str("dir", w[1]).num("version", atoi(w[2].c_str())).str("codec", w[3]));
			}
		else if (c == "new")
			{
			api.reset();
			api.reset(new JASS_anytime_api);
			t.emit(event("new"));
			}
		else if (c == "load")				// load version dir
			t.emit(event("load").num("version", num(1)).str("dir", w[2]).num("r", api->load_index(num(1), w[2] == "." ? "" : w[2])));
		else if (c == "oracle")				// oracle line line line...	(each line is one percent encoded line of the file)
			{
			FILE *f = fopen("oracle.txt", "wb");
			std::vector<std::string> lines;
			for (size_t i = 1; i < w.size(); i++)
				{
				lines.push_back(unpct(w[i]));
				fprintf(f, "%s\n", lines.back().c_str());
				}
			fclose(f);
			std::vector<std::string> pairs;
			for (const auto &l : lines)
				{
				auto sp = l.find(' ');
				pairs.push_back("[" + jstr(l.substr(0, sp)) + "," + std::to_string(strtoul(l.c_str() + sp, nullptr, 10)) + "]");
				}
			int r = api->load_oracle_scores("oracle.txt");
			t.emit(event("oracle").raw("scores", jlist(pairs)).num("r", r));
			}
		else if (c == "oracle_none")		// an empty name clears the table
			t.emit(event("oracle").raw("scores", "[]").num("r", api->load_oracle_scores("")));
		else if (c == "oracle_file")
			t.emit(event("oracle_file").str("name", w[1]).num("r", api->load_oracle_scores(w[1])));
		else if (c == "k")
			t.emit(event("set_k").num("v", num(1)).num("r", api->set_top_k(num(1))));
		else if (c == "width")
			t.emit(event("set_width").num("v", num(1)).num("r", api->set_accumulator_width(num(1))));
		else if (c == "rho")
			t.emit(event("set_rho").num("v", num(1)).num("r", api->set_postings_to_process(num(1))));
		else if (c == "rho_inf")
			t.emit(event("set_rho_inf").num("r", api->set_postings_to_process((std::numeric_limits<size_t>::max)())));
		else if (c == "rho_min")
			t.emit(event("set_rho_min").num("v", num(1)).num("r", api->set_postings_to_process_minimum(num(1))));
		else if (c == "rho_pct")
			t.emit(event("set_rho_pct").num("v", num(1)).num("r", api->set_postings_to_process_proportion(num(1))));
		else if (c == "rho_min_pct")
			t.emit(event("set_rho_min_pct").num("v", num(1)).num("r", api->set_postings_to_process_proportion_minimum(num(1))));
		else if (c == "rho_rel")
			t.emit(event("set_rho_rel").num("v", num(1)).num("r", api->set_postings_to_process_relative(num(1))));
		else if (c == "parser")
			t.emit(event("set_parser").str("v", w[1]).num("r", w[1] == "ascii" ? api->use_ascii_parser() : api->use_query_parser()));
		else if (c == "get")
			{
			uint32_t rho = api->get_postings_to_process();
			t.emit(event("get").num("docs", api->get_document_count()).num("k", api->get_top_k()).num("maxk", api->get_max_top_k()).raw("rho", rho > 0x7fffffff ? "-1" : std::to_string(rho)).str("codec", api->get_encoding_scheme_name()).num("d", api->get_encoding_scheme_d()));
			}
		else if (c == "search")				// search id word word...   (id "~": no query id and no separator)
			{
			std::vector<std::string> ws;
			std::string text = compose(w, 1, ws);
			auto r = api->search(text);
			t.emit(event("search").str("id", w[1] == "~" ? "" : arg(1)).raw("w", jstrs(ws)).raw("r", result_json(r)));
			}
		else if (c == "tsearch")			// tsearch threads id,word,word id,word ...
			{
			std::vector<std::string> q, qe;
			for (size_t i = 2; i < w.size(); i++)
				{
				std::vector<std::string> f, ws;
				std::istringstream in(w[i]);
				std::string x;
				while (std::getline(in, x, ','))
					f.push_back(x);
				q.push_back(compose(f, 0, ws));
				qe.push_back("{\"id\":" + jstr(f[0] == "~" ? "" : unpct(f[0])) + ",\"w\":" + jstrs(ws) + "}");
				}
			auto r = api->threaded_search(q, num(1));
			std::vector<std::string> per;
			for (auto &one : r)
				{
				std::vector<std::string> x;
				for (auto &[id, res] : one)
					x.push_back(result_json(res));
				per.push_back(jlist(x));
				}
			t.emit(event("tsearch").num("threads", num(1)).num("conflicts", __atomic_exchange_n(&unordered_accesses, 0, __ATOMIC_SEQ_CST)).raw("qs", jlist(qe)).raw("r", jlist(per)));
			}
		else
			{
			fprintf(stderr, "unknown command %s\n", c.c_str());
			return 3;
			}
		}
	return 0;
	}
