// P22: effectiveness measures.  Commands (numbers; the harness writes the files):
//   eval JUDGED PRICES TOPIC RUN depth k p       one topic through the measures themselves
//   tool JUDGED PRICES TOPIC:RUN... depth k p z  whole runs through the evaluation tool (z: average over the topics of the run)
// JUDGED: topic:document:grade,...  PRICES: document:price,... (or -)  RUN: document,... (or -)  depth 0: unlimited  p: thousandths
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include <algorithm>
#include <memory>
#include <limits>
#include <regex>
#define main jass_eval_main
#include "../tools/JASS_eval.cpp"
#undef main
#include "evaluate_relevant_returned.h"
#include "common.h"
using namespace JASS;
static std::vector<std::string> cut(const std::string &s, char by)
	{
	std::vector<std::string> r;
	if (s == "-")
		return r;
	std::istringstream in(s);
	std::string x;
	while (std::getline(in, x, by))
		r.push_back(x);
	return r;
	}
static std::string fixed(double v)
	{
	if (std::isnan(v) || std::isinf(v) || v > 2000 || v < -2000)
		return "-1999999999";
	return std::to_string((long long)std::llround(v * 1000000));
	}
static std::string rows(const std::string &s)
	{
	std::string r = "[";
	for (const auto &one : cut(s, ','))
		{
		auto f = cut(one, ':');
		r += (r == "[" ? "[" : ",[");
		for (size_t i = 0; i < f.size(); i++)
			r += (i ? "," : "") + f[i];
		r += "]";
		}
	return r + "]";
	}
static std::string qrels(const std::string &judged)
	{
	std::string r;
	for (const auto &one : cut(judged, ','))
		{
		auto f = cut(one, ':');
		r += f[0] + " 0 " + f[1] + " " + f[2] + "\n";
		}
	return r;
	}
static std::string pricelist(const std::string &prices)
	{
	std::string r;
	for (const auto &one : cut(prices, ','))
		{
		auto f = cut(one, ':');
		r += "PRICE 0 " + f[0] + " " + f[1] + "\n";
		}
	return r;
	}
static void measures(vf::trace &out, const std::vector<std::string> &w)
	{
	std::shared_ptr<evaluate> prices(new evaluate), judged(new evaluate);
	std::string text = pricelist(w[2]);
	prices->decode_assessments_trec_qrels(text);
	text = qrels(w[1]);
	judged->decode_assessments_trec_qrels(text);
	auto run = cut(w[4], ',');
	size_t depth = std::stoul(w[5]), k = std::stoul(w[6]);
	long double p = std::stoi(w[7]) / 1000.0L;
	size_t far = depth == 0 ? (std::numeric_limits<size_t>::max)() : depth;
	const std::string &q = w[3];
	std::string s = "{";
	auto put = [&](const char *name, double v) { s += (s == "{" ? "" : ",") + vf::jstr(name) + ":" + fixed(v); };
	put("RelRet", evaluate_relevant_returned(judged).compute(q, run));
	put("P", evaluate_precision(judged).compute(q, run, far));
	put("R", evaluate_recall(judged).compute(q, run, far));
	put("F1", evaluate_f(judged).compute(q, run, far));
	put("MAP", evaluate_map(judged).compute(q, run, far));
	put("MRR", evaluate_mean_reciprocal_rank(judged).compute(q, run, far));
	put("MRR4K", evaluate_mean_reciprocal_rank4k(k, judged).compute(q, run, far));
	put("RBP", evaluate_rank_biased_precision(p, judged).compute(q, run, far));
	put("ESL", evaluate_expected_search_length(judged).compute(q, run, far));
	if (w[2] != "-")
		{
		put("PC", evaluate_cheapest_precision(prices, judged).compute(q, run, far));
		put("SP", evaluate_selling_power(prices, judged).compute(q, run, far));
		put("BP", evaluate_buying_power(prices, judged).compute(q, run, far));
		put("BP4K", evaluate_buying_power4k(k, prices, judged).compute(q, run, far));
		put("PBnDCG", evaluate_price_based_normalized_discounted_cumulative_gain(prices, judged).compute(q, run, far));
		put("BPnDCG", evaluate_buying_power_normalized_discounted_cumulative_gain(prices, judged).compute(q, run, far));
		}
	vf::event e("eval");
	e.raw("judged", rows(w[1])).raw("prices", rows(w[2])).raw("topic", q).raw("run", rows(w[4]) == "[]" ? "[]" : "[" + w[4] + "]");
	e.num("depth", depth).num("k", k).num("p", std::stoi(w[7])).raw("scores", s + "}");
	out.emit(e);
	}
// "Mean Average Precision (MAP)  : 0.5" -> MAP, "Number Relevant" -> NumberRelevant
static std::string shortname(const std::string &name)
	{
	std::string r = name;
	size_t open = name.rfind('('), close = name.rfind(')');
	if (open != std::string::npos && close > open)
		r = name.substr(open + 1, close - open - 1);
	std::string t;
	for (char c : r)
		if (isalnum((unsigned char)c))
			t += c;
		else if (c == '@')
			t += "_";
	return t;
	}
static void tool(vf::trace &out, const std::vector<std::string> &w)
	{
	std::ofstream("qrels") << pricelist(w[2]) << qrels(w[1]);
	std::string runs = "[", text;
	size_t last = w.size() - 4;
	for (size_t i = 3; i < last; i++)
		{
		auto f = cut(w[i], ':');
		runs += (i == 3 ? "[" : ",[") + f[0] + ",[" + f[1] + "]]";
		size_t rank = 0;
		auto docs = cut(f[1], ',');
		for (const auto &d : docs)
			{
			rank++;
			text += f[0] + " Q0 " + d + " " + std::to_string(rank) + " " + std::to_string(docs.size() - rank + 1) + ".5 tag\n";
			}
		}
	std::ofstream("run") << text;
	fflush(nullptr);
	pid_t child = fork();
	if (child == 0)
		{
		int to = open("printed", O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(to, 1);
		std::string p = "0." + std::string(3 - std::min<size_t>(3, w[last + 2].size()), '0') + w[last + 2];
		std::vector<const char *> argv = {"JASS_eval", "-a", "qrels", "-r", "run", "-p", "-k", w[last + 1].c_str(), "-P", p.c_str()};
		if (w[last] != "0")
			{
			argv.push_back("-n");
			argv.push_back(w[last].c_str());
			}
		if (w[last + 3] == "1")
			argv.push_back("-Z");
		int rc = jass_eval_main((int)argv.size(), argv.data());
		std::cout.flush();
		fflush(nullptr);
		_exit(rc);
		}
	int status;
	waitpid(child, &status, 0);
	std::ifstream in("printed");
	std::string line, blocks = "[", block, topic;
	auto flush = [&]()
		{
		if (topic != "")
			blocks += (blocks == "[" ? "" : ",") + ("{\"topic\":" + (topic == "Averages" ? std::string("-1") : topic) + ",\"scores\":{" + block + "}}");
		topic = block = "";
		};
	while (std::getline(in, line))
		{
		size_t colon = line.rfind(": ");
		if (colon == std::string::npos)
			{
			flush();
			continue;
			}
		std::string name = shortname(line.substr(0, colon)), value = line.substr(colon + 2);
		if (name == "QUERYID")
			topic = value;
		else if (name != "RUNID" && name != "GMAP")
			block += (block == "" ? "" : ",") + vf::jstr(name) + ":" + fixed(atof(value.c_str()));
		}
	flush();
	vf::event e("tool");
	e.raw("judged", rows(w[1])).raw("prices", rows(w[2])).raw("runs", runs + "]").raw("depth", w[last]).raw("k", w[last + 1]).raw("p", w[last + 2]);
	e.boolean("zeroless", w[last + 3] == "1").boolean("ended", WIFEXITED(status) && WEXITSTATUS(status) == 0).raw("blocks", blocks + "]");
	out.emit(e);
	unlink("printed");
	unlink("qrels");
	unlink("run");
	}
// ---- P36: correlation and significance ----
static std::vector<double> numbers(const std::string &s, double scale)
	{
	std::vector<double> r;
	for (const auto &one : cut(s, ','))
		r.push_back(std::stoi(one) * scale);
	return r;
	}
static std::string list(const std::string &s) { return s == "-" ? "[]" : "[" + s + "]"; }
static std::string scaled(double v, double by)
	{
	return std::isnan(v) ? "-1999999999" : std::isinf(v) || std::fabs(v) > 1000 ? "1999999999" : std::to_string((long long)std::llround(v * by));
	}
static void statistic(vf::trace &out, const std::vector<std::string> &w)
	{
	double scale = std::stoi(w[1]) / 4.0;
	auto a = numbers(w[2], scale), b = numbers(w[3], scale);
	vf::event e(w[0]);
	e.raw("a", list(w[2])).raw("b", list(w[3]));
	if (w[0] == "ranks")
		{
		std::vector<double> ranks;
		statistics::value_to_fractional_rank(ranks, a);
		std::string r;
		for (double x : ranks)
			r += (r == "" ? "" : ",") + scaled(x, 2);
		e.raw("ranks", "[" + r + "]");
		}
	else if (w[0] == "corr")
		{
		e.raw("pearson", scaled(statistics::pearson_correlation(a, b), 10000));
		e.raw("spearman", scaled(statistics::spearman_correlation(a, b), 10000));
		}
	else
		{
		auto p = statistics::ttest_paired(a, b, statistics::ONE_TAILED), q = statistics::ttest_paired(a, b, statistics::TWO_TAILED);
		e.raw("one", std::isnan(p) ? "-1" : scaled(p, 100000)).raw("two", std::isnan(q) ? "-1" : scaled(q, 100000));
		}
	out.emit(e);
	}
// what the tool prints: the lines after the title, as words (the metric names have none of their own)
static std::vector<std::vector<std::string>> printed(const std::string &text)
	{
	std::vector<std::vector<std::string>> r;
	std::istringstream in(text);
	std::string line;
	while (std::getline(in, line))
		{
		r.push_back({});
		for (size_t m = 0; m < metric_name.size(); m++)
			for (size_t at = line.find(metric_name[m]); at != std::string::npos; at = line.find(metric_name[m]))
				line.replace(at, metric_name[m].size(), "metric" + std::to_string(m));
		std::istringstream words(line);
		std::string x;
		while (words >> x)
			r.back().push_back(x);
		}
	return r;
	}
static std::string table(const std::vector<std::vector<std::string>> &t)
	{
	std::string r = "[";
	for (size_t i = 1; i < t.size(); i++)
		{
		r += (i > 1 ? ",[" : "[");
		for (size_t j = 0; j < t[i].size(); j++)
			{
			const std::string &x = t[i][j];
			bool number = isdigit((unsigned char)x[0]) || (x[0] == '-' && x.size() > 1 && isdigit((unsigned char)x[1]));
			r += (j ? "," : "") + vf::jstr(number ? scaled(atof(x.c_str()), 10000) : x);
			}
		r += "]";
		}
	return r + "]";
	}
// "matrix run:query=score,query=score..."; "table metric:score,score,..." (one score per run)
static void matrix(vf::trace &out, const std::vector<std::string> &w)
	{
	std::map<std::string, std::map<std::string, metric_set>> runs;
	std::map<std::string, metric_set> averages;
	std::vector<metric_index> over;
	std::string given = "[";
	for (size_t i = 1; i < w.size(); i++)
		{
		auto f = cut(w[i], ':');
		given += (i > 1 ? ",[" : "[") + vf::jstr(w[0] == "matrix" ? f[0] : "metric" + f[0]) + ",[";
		auto scores = cut(f[1], ',');
		if (w[0] == "table")
			over.push_back((metric_index)std::stoi(f[0]));
		for (size_t j = 0; j < scores.size(); j++)
			{
			if (w[0] == "matrix")
				{
				auto g = cut(scores[j], '=');
				given += (j ? ",[" : "[") + g[0] + "," + g[1] + "]";
				metric_set one(f[0], g[0]);
				one.metric[MEAN_AVERAGE_PRECISION] = std::stoi(g[1]) / 4.0;
				one.metric[F1] = 1 - std::stoi(g[1]) / 8.0 + (j == 0);
				runs[f[0]].emplace(g[0], one);
				}
			else
				{
				given += (j ? "," : "") + scores[j];
				auto at = averages.emplace("run" + std::to_string(1000 + j), metric_set("x", "Averages")).first;
				at->second.metric[over.back()] = std::stoi(scores[j]) / 4.0;
				}
			}
		given += "]]";
		}
	std::ostringstream text;
	auto old = std::cout.rdbuf(text.rdbuf());
	std::cout << std::fixed << std::setprecision(4);
	if (w[0] == "matrix")
		metric_set::t_test(MEAN_AVERAGE_PRECISION, runs);
	else
		metric_set::spearman_correlate(over, averages);
	std::cout.rdbuf(old);
	vf::event e(w[0]);
	e.raw("given", given + "]").raw("printed", table(printed(text.str())));
	out.emit(e);
	}
int main(int argc, char *argv[])
	{
	vf::scenario sc(argv[1]);
	vf::trace out(argv[2]);
	for (auto &w : sc.lines)
		{
		if (w[0] == "eval") measures(out, w);
		if (w[0] == "tool") tool(out, w);
		if (w[0] == "ranks" || w[0] == "corr" || w[0] == "ttest") statistic(out, w);
		if (w[0] == "matrix" || w[0] == "table") matrix(out, w);
		}
	return 0;
	}
