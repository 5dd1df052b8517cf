// The command line parser on options of every type, with names chosen at run time.
#include "common.h"
#include <cmath>
#include <memory>
#include <sstream>
#include <iomanip>
#include <typeinfo>
#include "commandline.h"
using namespace JASS;
using namespace vf;

struct named
	{
	std::string brief, full, description;
	};
struct values
	{
	bool b[3] = {false, false, false};
	std::string s[2];
	short sh = 0;
	int i[2] = {0, 0};
	long l = 0;
	long long ll = 0;
	unsigned short us = 0;
	unsigned int ui[2] = {0, 0};
	unsigned long ul = 0;
	unsigned long long ull = 0;
	float f = 0;
	double d[2] = {0, 0};
	};

static std::string show(bool v) { return v ? "1" : "0"; }
static std::string show(const std::string &v) { return v; }
static std::string show(float v) { return std::to_string(std::llround((double)v * 1000000)); }
static std::string show(double v) { return std::to_string(std::llround(v * 1000000)); }
template <typename T> static std::string show(T v) { return std::to_string(v); }

static const char *kind(std::string &line)
	{
	static const char *all[][2] = {{" Unknown parameter", "unknown"}, {" Numeric overflow on parameter", "overflow"}, {" Numeric underflow on parameter", "underflow"},
		{" Missing numeric parameter", "number missing"}, {" Missing parameter", "missing"}, {" Not a number", "nan"}};
	for (auto &m : all)
		{
		size_t n = strlen(m[0]);
		if (line.size() >= n && line.compare(line.size() - n, n, m[0]) == 0)
			{
			line.resize(line.size() - n);
			return m[1];
			}
		}
	return "?";
	}

class session
	{
	public:
		trace &out;
		values v;
		std::vector<named> names;
		session(trace &out) : out(out), names(18) {}

		template <typename TUPLE> void act(const std::vector<std::string> &w, TUPLE &&all)
			{
			if (w[0] == "usage")
				{
				event e("usage");
				std::string text = commandline::usage("program", all);
				out.emit(e.raw("text", jbytes(text)));
				return;
				}
			std::vector<const char *> argv(1, "program");
			std::vector<std::string> given;
			for (size_t i = 1; i < w.size(); i++)
				given.push_back(w[i] == "%" ? "" : unpct(w[i]));
			for (const auto &g : given)
				argv.push_back(g.c_str());
			argv.push_back(nullptr);
			std::string error = "stale";
			bool ok = commandline::parse((int)argv.size() - 1, argv.data(), all, error);
			std::vector<std::string> says, args, vals;
			std::istringstream in(error);
			for (std::string line; std::getline(in, line); )
				{
				const char *k = kind(line);
				says.push_back("[" + jbytes(line) + "," + jstr(k) + "]");
				}
			for (const auto &g : given)
				args.push_back(jbytes(g));
			values_of(vals);
			event e("parse");
			out.emit(e.raw("args", jlist(args)).boolean("ok", ok).raw("says", jlist(says)).raw("vals", jlist(vals)));
			}
		void values_of(std::vector<std::string> &vals)
			{
			for (const std::string &x : {show(v.b[0]), show(v.s[0]), show(v.i[0]), show(v.ui[0]), show(v.d[0]), show(v.sh), show(v.us), show(v.l), show(v.ul), show(v.ll), show(v.ull), show(v.f), show(v.b[1]),
					show(v.s[1]), show(v.i[1]), show(v.ui[1]), show(v.d[1]), show(v.b[2])})
				vals.push_back(jbytes(x));
			}
		void run(const std::vector<std::string> &w)
			{
			#define P(n, x) commandline::parameter(names[n].brief, names[n].full, names[n].description, x)
			act(w, std::make_tuple(P(0, v.b[0]), P(1, v.s[0]), P(2, v.i[0]), P(3, v.ui[0]), P(4, v.d[0]), P(5, v.sh), P(6, v.us), P(7, v.l), P(8, v.ul), P(9, v.ll), P(10, v.ull), P(11, v.f), P(12, v.b[1]),
				P(13, v.s[1]), P(14, v.i[1]), P(15, v.ui[1]), P(16, v.d[1]), P(17, v.b[2]), commandline::note("THE END")));
			}
	};

int main(int argc, char *argv[])
	{
	scenario s(argv[1]);
	trace t(argv[2]);
	t.emit(event("reset"));
	std::unique_ptr<session> now;
	static const char *types[] = {"bool", "string", "int", "uint", "double", "short", "ushort", "long", "ulong", "llong", "ullong", "float", "bool", "string", "int", "uint", "double", "bool"};
	for (const auto &w : s.lines)
		if (w[0] == "options")		// a new set of options; all values start afresh
			{
			now.reset(new session(t));
			std::vector<std::string> all;
			for (size_t i = 0; i < 18; i++)
				{
				auto get = [&](size_t at) { return at < w.size() && w[at] != "%" ? unpct(w[at]) : std::string(); };
				now->names[i] = {get(1 + 3 * i), get(2 + 3 * i), get(3 + 3 * i)};
				all.push_back("{\"short\":" + jbytes(now->names[i].brief) + ",\"long\":" + jbytes(now->names[i].full) + ",\"type\":" + jstr(types[i]) + ",\"desc\":" + jbytes(now->names[i].description) + "}");
				}
			all.push_back("{\"short\":[],\"long\":[],\"type\":\"note\",\"desc\":" + jbytes(std::string("THE END")) + "}");
			std::vector<std::string> vals;
			now->values_of(vals);
			event e("options");
			t.emit(e.raw("opts", jlist(all)).raw("vals", jlist(vals)));
			}
		else
			now->run(w);
	return 0;
	}
