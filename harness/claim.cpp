// Workers claim queries from a shared list (JASS_anytime_query::get_next_query) under every schedule of their atomic
// operations (bounded pre-emptions) and under random ones.  One history per line of the scenario.
#include "coop.h"
#include "common.h"
#include "JASS_anytime_query.h"
#undef atomic
using namespace vf;

int main(int argc, char **argv)
	{
	scenario s(argv[1]);
	trace t(argv[2]);
	std::set<std::string> seen;
	for (const auto &w : s.lines)			// run workers queries bound limit | random workers queries seed count
		{
		int workers = atoi(w[1].c_str()), queries = atoi(w[2].c_str());
		bool systematic = w[0] == "run";
		int bound = systematic ? atoi(w[3].c_str()) : 0;
		long limit = atol(w[4].c_str());
		coop::world world;
		if (w[0] == "stress")			// stress workers queries 0 rounds: real threads
			{
			for (long r = 0; r < limit; r++)
				{
				std::vector<JASS_anytime_query> list;
				for (int i = 1; i <= queries; i++)
					list.push_back(std::to_string(i));
				std::vector<std::vector<int>> got(workers);
				volatile int ready = 0;
				std::vector<std::thread> pool;
				for (int who = 0; who < workers; who++)
					pool.emplace_back([&, who]()
						{
						__sync_fetch_and_add(&ready, 1);
						while (ready < workers)
							;
						size_t from = 0;
						for (int guard = 0; guard < 4 * queries + 4; guard++)
							{
							std::string q = JASS_anytime_query::get_next_query(list, from);
							if (q == "")
								break;
							got[who].push_back(atoi(q.c_str()));
							}
						});
				for (auto &x : pool)
					x.join();
				std::vector<std::string> all;
				for (auto &g : got)
					all.push_back(jnums(g));
				std::string line = event("claimed").num("queries", queries).raw("by", jlist(all)).text + "}\n";
				// the specification judges counts only, so histories that differ just in who won need not all be written
				std::vector<int> times(queries + 1, 0);
				for (auto &g : got)
					for (int q : g)
						if (q >= 1 && q <= queries)
							times[q]++;
				std::string shape = std::to_string(queries) + jnums(times);
				if (seen.insert(shape).second || r % 200 == 0)
					fputs(line.c_str(), t.fp);
				}
			fprintf(t.fp, "{\"e\":\"note\",\"runs\":%ld}\n", limit);
			continue;
			}
		if (!systematic)
			{
			world.random_tail = true;
			world.rng.seed(atoi(w[3].c_str()));
			}
		std::vector<int> forced;
		long runs = 0;
		while (runs < limit)
			{
			std::vector<std::string> events;
			{
			std::vector<JASS_anytime_query> list;
			for (int i = 1; i <= queries; i++)
				list.push_back(std::to_string(i));
			std::vector<std::function<void()>> fns;
			for (int who = 1; who <= workers; who++)
				fns.push_back([&, who]()
					{
					size_t from = 0;
					int guard = 0;
					while (guard++ < 1000)
						{
						std::string q = JASS_anytime_query::get_next_query(list, from);
						if (q == "")
							{
							events.push_back("{\"e\":\"exhausted\",\"w\":" + std::to_string(who) + "}");
							break;
							}
						events.push_back("{\"e\":\"claim\",\"w\":" + std::to_string(who) + ",\"q\":" + q + "}");
						}
					});
			if (!systematic)
				world.switch_percent = 10 + (runs * 37) % 80;
			world.run(fns, forced);
			}
			runs++;
			std::string all = "{\"e\":\"start\",\"workers\":" + std::to_string(workers) + ",\"queries\":" + std::to_string(queries) + "}\n";
			for (const auto &e : events)
				all += e + "\n";
			all += world.overrun ? "{\"e\":\"stuck\"}\n" : "{\"e\":\"end\"}\n";
			if (seen.insert(all).second)
				fputs(all.c_str(), t.fp);
			if (systematic && !world.next(forced, bound))
				break;
			}
		fprintf(t.fp, "{\"e\":\"note\",\"runs\":%ld}\n", runs);
		fflush(t.fp);
		}
	return 0;
	}
