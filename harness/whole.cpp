// The programs themselves, run one after another in the directory the harness runs in.  Commands (words percent-encoded):
//   file name bytes | gz name member... | remove name
//   index  text=name,... fact=value ... | argument...      runs the indexer
//   human  version=n what=dump|dictionary | argument...     prints an index
//   ciff   text=name fact=value ... | argument...          imports an index
//   search text=name,... fact=value ... | argument...      runs the search program
//   compiled                                               builds the sources of a compiled index and says what they hold
// Facts go into the event as they are.  Usage: whole scenario trace indexer printer searcher importer [how to build those]
#include <map>
#include <memory>
#include <limits>
#include <cstddef>
#include <algorithm>
#include <filesystem>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include <zlib.h>
#include "common.h"
#include "asserts.h"
#include "parser.h"
#include "allocator_pool.h"
#include "allocator_cpp.h"
#include "classes.h"
using namespace vf;

static std::string slurp(const std::string &name)
	{
	std::ifstream in(name, std::ios::binary);
	std::stringstream s;
	s << in.rdbuf();
	return s.str();
	}
static void spill(const std::string &name, const std::string &bytes)
	{
	std::filesystem::path p(name);
	if (p.has_parent_path())
		std::filesystem::create_directories(p.parent_path());
	std::ofstream(name, std::ios::binary) << bytes;
	}
static std::string gzipped(const std::string &s)
	{
	z_stream z = {};
	deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
	std::string out(deflateBound(&z, s.size()) + 64, '\0');
	z.next_in = (Bytef *)s.data();
	z.avail_in = s.size();
	z.next_out = (Bytef *)&out[0];
	z.avail_out = out.size();
	deflate(&z, Z_FINISH);
	out.resize(z.total_out);
	deflateEnd(&z);
	return out;
	}
static int run(const char *program, const std::vector<std::string> &arguments, std::string &said)
	{
	std::vector<const char *> argv = {program};
	for (const auto &a : arguments)
		argv.push_back(a.c_str());
	argv.push_back(nullptr);
	pid_t child = fork();
	if (child == 0)
		{
		int out = open("said.out", O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(out, 1);
		execv(program, (char *const *)argv.data());
		_exit(127);
		}
	int status;
	waitpid(child, &status, 0);
	said = slurp("said.out");
	unlink("said.out");
	if (WIFSIGNALED(status) || WEXITSTATUS(status) == 127)
		{
		fprintf(stderr, "%s: %s\n", program, WIFSIGNALED(status) ? strsignal(WTERMSIG(status)) : "not run");
		_exit(WIFSIGNALED(status) ? 98 : 97);
		}
	return WEXITSTATUS(status);
	}
static std::vector<std::string> split(const std::string &text, char by)
	{
	std::vector<std::string> out;
	size_t at = 0;
	while (at < text.size())
		{
		size_t e = text.find(by, at);
		e = e == std::string::npos ? text.size() : e;
		out.push_back(text.substr(at, e - at));
		at = e + 1;
		}
	return out;
	}
static std::string after(const std::string &said, const std::string &label)		// the number that follows a label at the start of a line
	{
	std::string answer = "-1";
	for (const auto &l : split(said, '\n'))		// the last: it may report on its way
		if (l.compare(0, label.size(), label) == 0)
			{
			size_t at = l.find_first_not_of(" :", label.size());
			if (at != std::string::npos && isdigit((unsigned char)l[at]))
				answer = std::to_string(atoll(l.c_str() + at));
			}
	return answer;
	}
// term <document,impact><document,impact>...
static std::string dump_line(const std::string &l)
	{
	size_t sp = l.rfind(' ');
	if (sp == std::string::npos)
		return "[" + jbytes(l) + ",[]]";
	std::vector<std::string> groups, ids;
	long impact = -1;
	auto flush = [&]() { if (!ids.empty()) groups.push_back("[" + std::to_string(impact) + "," + jlist(ids) + "]"); ids.clear(); };
	const char *at = l.c_str() + sp + 1;
	while (*at != '\0')
		{
		unsigned long id, imp;
		int used = 0;
		if (sscanf(at, "<%lu,%lu>%n", &id, &imp, &used) != 2 || used == 0)
			return "[[],[]]";
		if ((long)imp != impact)
			flush();
		impact = imp;
		ids.push_back(std::to_string(id));
		at += used;
		}
	flush();
	return "[" + jbytes(l.substr(0, sp)) + "," + jlist(groups) + "]";
	}
// <qid> Q0 <key> <rank> <rsv> JASSv2(ID:<docid>-><rsv>)
static std::string ranking_line(const std::string &line)
	{
	static const std::string bad = "{\"q\":[],\"k\":[],\"n\":-1,\"s\":-1,\"d\":-1}";
	size_t a = line.find(" Q0 "), z = line.rfind(" JASSv2(ID:");
	if (a == std::string::npos || z == std::string::npos || z < a)
		return bad;
	std::string qid = line.substr(0, a), rest = line.substr(a + 4, z - a - 4);
	size_t s = rest.rfind(' '), r = s == std::string::npos || s == 0 ? s : rest.rfind(' ', s - 1);
	if (r == std::string::npos || s == std::string::npos)
		return bad;
	std::string key = rest.substr(0, r);
	long long rank = atoll(rest.c_str() + r + 1), rsv = atoll(rest.c_str() + s + 1), id = -1, again = -1;
	sscanf(line.c_str() + z, " JASSv2(ID:%lld->%lld)", &id, &again);
	if (line != qid + " Q0 " + key + " " + std::to_string(rank) + " " + std::to_string(rsv) + " JASSv2(ID:" + std::to_string(id) + "->" + std::to_string(rsv) + ")")
		return bad;
	return "{\"q\":" + jbytes(qid) + ",\"k\":" + jbytes(key) + ",\"n\":" + std::to_string(rank) + ",\"s\":" + std::to_string(rsv) + ",\"d\":" + std::to_string(id) + "}";
	}
static std::string between(const std::string &l, const std::string &tag)
	{
	size_t a = l.find("<" + tag + ">"), b = l.rfind("</" + tag + ">");
	return a == std::string::npos || b == std::string::npos ? std::string("?") : l.substr(a + tag.size() + 2, b - a - tag.size() - 2);
	}

int main(int argc, char *argv[])
	{
	scenario s(argv[1]);
	trace t(argv[2]);
	std::map<std::string, std::string> texts;
	t.emit(event("reset"));
	for (auto w : s.lines)
		{
		for (auto &x : w)
			x = unpct(x);
		if (w[0] == "file" || w[0] == "gz")
			{
			std::string plain, bytes;
			for (size_t i = 2; i < w.size(); i++)
				{
				plain += w[i];
				bytes += w[0] == "gz" ? gzipped(w[i]) : w[i];
				}
			texts[w[1]] = plain;
			spill(w[1], bytes);
			continue;
			}
		if (w[0] == "remove")
			{
			std::filesystem::remove(w[1]);
			continue;
			}
		std::string kind = w[0];
		for (const auto &x : w)
			if (x.compare(0, 5, "what=") == 0)
				kind = x.substr(5);
		event e(kind);
		std::vector<std::string> arguments;
		size_t i = 1;
		for (; i < w.size() && w[i] != "|"; i++)
			{
			size_t eq = w[i].find('=');
			std::string name = w[i].substr(0, eq), value = w[i].substr(eq + 1);
			if (name == "what")
				continue;
			if (name == "text")
				e.raw("text", jbytes(texts[value])).raw("classes", classes(texts[value]));
			else
				e.raw(name, value);
			}
		for (i++; i < w.size(); i++)
			arguments.push_back(w[i]);
		std::string said;
		if (w[0] == "index")
			{
			e.num("rc", run(argv[3], arguments, said)).raw("docs", after(said, "Documents")).raw("length", after(said, "Terms"));
			}
		else if (w[0] == "ciff")
			{
			static const char *made[] = {"CIpostings.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIdoclist.bin"};
			for (auto f : made)
				unlink(f);
			e.num("rc", run(argv[6], arguments, said));
			int files = 0;
			for (auto f : made)
				files += std::filesystem::exists(f) ? 1 : 0;
			e.num("files", files);
			}
		else if (w[0] == "compiled")
			{
			std::string words;
			int rc = system((std::string(argv[7]) + " 2>built.err").c_str());
			if (rc == 0)
				rc = run("./probe", {}, words);
			e.num("rc", rc).text += "," + (rc == 0 ? words : std::string("\"keys\":[],\"terms\":[]"));
			}
		else if (w[0] == "human")
			{
			e.num("rc", run(argv[4], arguments, said));
			size_t head = said.find("-\n"), keys = said.rfind("\nPRIMARY KEY LIST\n----------------\n");
			std::vector<std::string> terms, names;
			std::string list = head == std::string::npos ? "" : said.substr(head + 2, keys == std::string::npos ? std::string::npos : keys > head + 2 ? keys - head - 2 : 0);
			for (const auto &l : split(list, '\n'))
				terms.push_back(keys == std::string::npos ? jbytes(l) : dump_line(l));
			if (keys != std::string::npos)
				for (const auto &l : split(said.substr(keys + 35), '\n'))
					names.push_back(jbytes(l));
			e.raw("terms", jlist(terms)).raw("keys", jlist(names));
			}
		else
			{
			unlink("ranking.txt");
			unlink("JASSv2Stats.txt");
			e.num("rc", run(argv[5], arguments, said)).raw("queries", after(said, "Queries")).raw("documents", after(said, "Documents"));
			e.boolean("ranked", std::filesystem::exists("ranking.txt")).boolean("why", said.find("Cannot load the index") != std::string::npos);
			std::vector<std::string> lines, stats;
			for (const auto &l : split(slurp("ranking.txt"), '\n'))
				lines.push_back(ranking_line(l));
			for (const auto &l : split(slurp("JASSv2Stats.txt"), '\n'))
				if (l.compare(0, 4, "<id>") == 0)
					stats.push_back("{\"id\":" + jbytes(between(l, "id")) + ",\"query\":" + jbytes(between(l, "query")) + ",\"pp\":" + std::to_string(atoll(between(l, "postings").c_str())) + "}");
			e.raw("ranking", jlist(lines)).raw("stats", jlist(stats));
			}
		t.emit(e);
		}
	return 0;
	}
