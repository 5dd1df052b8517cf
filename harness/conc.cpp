// The structures shared by threads, under every schedule of their atomic operations (bounded pre-emptions), under random
// ones, and (COOP_REAL) with real threads.  Everything is compiled with -include coop.h.  Scenario lines:
//   MODE arg limit array THREADS PER first growth%
//   MODE arg limit tree|hash8|hash16|hash24 THREADS key,key,... key,key,...   (one list per thread)
//   MODE arg limit pool BLOCK THREADS bytes:align,...  (one list per thread)
//   MODE arg limit memory LENGTH THREADS bytes:align,... 
// MODE: sys (arg = pre-emptions), rnd (arg = seed), real (arg unused)
#include "coop.h"
#include "common.h"
#include "slice.h"
#include "allocator_pool.h"
#include "allocator_memory.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "dynamic_array.h"
#include "binary_tree.h"
#include "hash_table.h"
#undef atomic
using namespace vf;
using namespace JASS;

typedef std::vector<std::function<void()>> jobs;
typedef std::vector<std::string> words_t;
static std::atomic<long> the_clock(0);
static std::vector<std::string> split(const std::string &s, char c)
	{
	std::vector<std::string> out;
	std::string cur;
	for (char x : s)
		if (x == c)
			{
			out.push_back(cur);
			cur.clear();
			}
		else
			cur += x;
	out.push_back(cur);
	return out;
	}

class experiment
	{
	public:
		virtual ~experiment() {}
		virtual jobs start() = 0;
		virtual std::string finish() = 0;
	};

class array_experiment : public experiment
	{
	public:
		int threads, per;
		allocator_pool pool;
		dynamic_array<int> array;
		std::vector<std::array<long, 2>> ops;
		array_experiment(const words_t &w) : threads(atoi(w[4].c_str())), per(atoi(w[5].c_str())), pool(1024), array(pool, atoi(w[6].c_str()), atoi(w[7].c_str()) / 100.0), ops(threads * per) {}
		jobs start() override
			{
			jobs j;
			for (int t = 0; t < threads; t++)
				j.push_back([this, t]()
					{
					for (int i = 0; i < per; i++)
						{
						int v = t * per + i;
						ops[v][0] = the_clock++;
						array.push_back(v + 1);
						ops[v][1] = the_clock++;
						}
					});
			return j;
			}
		std::string finish() override
			{
			std::vector<int> seen, index;
			size_t n = ops.size(), guard = 0;
			for (auto it = array.begin(); it != array.end() && guard++ < 4 * n + 10; ++it)
				seen.push_back(*it);
			for (size_t i = 0; i < n; i++)
				index.push_back(array[i]);
			std::vector<std::string> o;
			for (auto &x : ops)
				o.push_back("[" + std::to_string(x[0]) + "," + std::to_string(x[1]) + "]");
			size_t size = (the_clock * 7 + n) % (n + 3);
			std::vector<int> buffer(size + 8 * n + 16, -1), whole(8 * n + 16, -1);
			size_t full = array.serialise(nullptr, 0);
			size_t would = array.serialise(buffer.data(), size);
			array.serialise(whole.data(), n);
			int beyond = 0;
			for (size_t i = size; i < buffer.size(); i++)
				if (buffer[i] != -1)
					beyond++;
			for (size_t i = n; i < whole.size(); i++)
				if (whole[i] != -1)
					beyond++;
			std::vector<int> part(buffer.begin(), buffer.begin() + std::min(size, n));
			if (std::vector<int>(whole.begin(), whole.begin() + n) != seen)
				beyond++;
			return event("array").raw("ops", jlist(o)).raw("seen", jnums(seen)).raw("index", jnums(index)).num("back", n ? array.back() : 0)
				.raw("total", "[" + std::to_string(full) + "," + std::to_string(would) + "]").num("size", size).raw("part", jnums(part)).num("beyond", beyond).text + "}\n";
			}
	};

class cell
	{
	public:
		std::atomic<int> hits;
		cell(allocator &) : hits(0) {}
	};
std::ostream &operator<<(std::ostream &s, const cell &c) { return s << c.hits.load(); }

template <typename MAP> class map_experiment : public experiment
	{
	public:
		struct call { std::string key; long begin, end; cell *at; };
		allocator_pool pool;
		MAP map;
		bool ordered;
		std::vector<std::vector<call>> calls;
		map_experiment(const words_t &w, size_t block) : pool(block), map(pool), ordered(w[3] == "tree"), calls(atoi(w[4].c_str()))
			{
			for (size_t t = 0; t < calls.size(); t++)
				for (auto &k : split(w[5 + t], ','))
					calls[t].push_back({unpct(k), 0, 0, nullptr});
			}
		jobs start() override
			{
			jobs j;
			for (auto &mine : calls)
				j.push_back([this, &mine]()
					{
					for (auto &c : mine)
						{
						std::string key = c.key;				// the caller's buffer does not outlive the call
						c.begin = the_clock++;
						cell &e = map[slice((void *)key.data(), (size_t)key.size())];
						e.hits++;
						c.at = &e;
						c.end = the_clock++;
						std::fill(key.begin(), key.end(), '!');
						}
					});
			return j;
			}
		std::string finish() override
			{
			std::map<const cell *, int> ids;
			auto id = [&](const cell *c) { return ids.insert({c, (int)ids.size() + 1}).first->second; };
			std::vector<std::string> c, f;
			size_t total = 0;
			for (auto &mine : calls)
				for (auto &x : mine)
					{
					c.push_back("[" + jbytes(x.key) + "," + std::to_string(x.begin) + "," + std::to_string(x.end) + "," + std::to_string(id(x.at)) + "]");
					total++;
					}
			size_t guard = 0;
			for (auto it = map.begin(); it != map.end() && guard++ < 2 * total + 10; ++it)
				{
				auto pair = *it;
				f.push_back("[" + jbytes(pair.first.address(), pair.first.size()) + "," + std::to_string(pair.second.hits.load()) + "," + std::to_string(id(&pair.second)) + "]");
				}
			return event("map").raw("calls", jlist(c)).raw("final", jlist(f)).boolean("ordered", ordered).text + "}\n";
			}
	};

template <typename POOL> static std::string describe_blocks(std::vector<std::vector<std::array<size_t, 4>>> &got, uintptr_t base = 0)
	{
	std::vector<std::array<size_t, 4>> all;			// address, bytes, align, pattern
	for (auto &g : got)
		all.insert(all.end(), g.begin(), g.end());
	std::sort(all.begin(), all.end());
	std::vector<std::string> o;
	for (auto &b : all)
		{
		int intact = 1;
		for (size_t i = 0; i < b[1]; i++)
			if (((uint8_t *)b[0])[i] != (uint8_t)(b[3] + i * 7))
				intact = 0;
		o.push_back("[" + std::to_string((b[0] >> 20) % (1 << 30)) + "," + std::to_string(b[0] % (1 << 20)) + "," + std::to_string(b[1]) + "," + std::to_string(b[2]) + "," + std::to_string(intact) + "]");
		}
	return jlist(o);
	}

template <typename POOL> class pool_experiment : public experiment
	{
	public:
		std::vector<uint8_t> memory;
		size_t length;
		uint8_t *base;
		std::unique_ptr<POOL> pool;
		std::vector<std::vector<std::array<size_t, 2>>> want;
		std::vector<std::vector<std::array<size_t, 4>>> got;
		pool_experiment(const words_t &w) : length(strtoul(w[4].c_str(), nullptr, 10))
			{
			if constexpr (std::is_same<POOL, allocator_memory>::value)
				{
				memory.resize(length + 4096);
				base = memory.data() + 1 + length % 61;
				pool.reset(new POOL(base, length));
				}
			else
				{
				base = nullptr;
				pool.reset(new POOL(length));
				}
			for (int t = 0; t < atoi(w[5].c_str()); t++)
				{
				want.emplace_back();
				for (auto &x : split(w[6 + t], ','))
					want.back().push_back({strtoul(split(x, ':')[0].c_str(), nullptr, 10), strtoul(split(x, ':')[1].c_str(), nullptr, 10)});
				}
			got.resize(want.size());
			}
		void take(size_t t)
			{
			for (size_t i = 0; i < want[t].size(); i++)
				{
				uint8_t *p = (uint8_t *)pool->malloc(want[t][i][0], want[t][i][1]);
				size_t pattern = t * 31 + i * 13 + 1;
				for (size_t k = 0; k < want[t][i][0]; k++)
					p[k] = (uint8_t)(pattern + k * 7);
				got[t].push_back({(size_t)p, want[t][i][0], want[t][i][1], pattern});
				}
			}
		jobs start() override
			{
			jobs j;
			for (size_t t = 0; t < want.size(); t++)
				j.push_back([this, t]() { take(t); });
			return j;
			}
		bool granted(size_t bytes, size_t align)
			{
			fflush(nullptr);
			pid_t child = fork();
			if (child == 0)
				{
				atexit([]() { _exit(43); });
				dup2(open("/dev/null", O_WRONLY), 1);
				_exit(pool->malloc(bytes, align) == nullptr ? 44 : 42);
				}
			int status;
			waitpid(child, &status, 0);
			return WIFEXITED(status) && WEXITSTATUS(status) == 42;
			}
		std::string report()
			{
			bool fixed = base != nullptr;
			event e(fixed ? "memory" : "pool");
			e.raw("blocks", describe_blocks<POOL>(got)).num("size", pool->size()).num("capacity", pool->capacity());
			if (fixed)
				e.raw("base", "[" + std::to_string(((uintptr_t)base >> 20) % (1 << 30)) + "," + std::to_string((uintptr_t)base % (1 << 20)) + "]").num("length", length);
			static size_t reports = 0;
			if (fixed && reports++ % 40 < 2)		// where there is no room the process ends: ask in a process of its own
				{
				size_t left = length - pool->size();
				std::vector<std::string> asked;
				for (auto [bytes, align] : std::vector<std::array<size_t, 2>>{{left, 1}, {left + 1, 1}, {left, 8}, {left, 64}, {left > 7 ? left - 7 : 1, 16}, {length + 1, 1}})
					asked.push_back("[" + std::to_string(bytes) + "," + std::to_string(align) + "," + (granted(bytes, align) ? "1" : "0") + "]");
				e.raw("asked", jlist(asked));
				}
			else if (fixed)
				e.raw("asked", "[]");
			pool->rewind();
			e.raw("rewound", "[" + std::to_string(pool->size()) + "," + std::to_string(pool->capacity()) + "]");
			return e.text + "}\n";
			}
		std::string finish() override
			{
			std::string first = report();
			for (auto &g : got)
				g.clear();
			for (size_t t = 0; t < want.size(); t++)		// and again after a rewind
				take(t);
			return first + report();
			}
	};

static experiment *make(const words_t &w)
	{
	if (w[3] == "array")
		return new array_experiment(w);
	if (w[3] == "tree")
		return new map_experiment<binary_tree<slice, cell>>(w, 2048);
	if (w[3] == "hash8")
		return new map_experiment<hash_table<slice, cell, 8>>(w, 4096);
	if (w[3] == "hash16")
		return new map_experiment<hash_table<slice, cell, 16>>(w, 65536);
	if (w[3] == "hash24")
		return new map_experiment<hash_table<slice, cell, 24>>(w, 65536);
	if (w[3] == "pool")
		return new pool_experiment<allocator_pool>(w);
	if (w[3] == "memory")
		return new pool_experiment<allocator_memory>(w);
	exit(9);
	}

int main(int argc, char **argv)
	{
	scenario s(argv[1]);
	trace t(argv[2]);
	std::set<std::string> seen;
	for (const auto &w : s.lines)
		{
		long limit = atol(w[2].c_str()), runs = 0;
		if (w[0] == "real")
			{
			for (; runs < limit; runs++)
				{
				the_clock = 0;
				std::unique_ptr<experiment> x(make(w));
				jobs j = x->start();
				std::atomic<int> ready(0);
				std::vector<std::thread> pool;
				for (auto &f : j)
					pool.emplace_back([&]()
						{
						ready++;
						while (ready.load() < (int)j.size())
							;
						f();
						});
				for (auto &p : pool)
					p.join();
				fputs(x->finish().c_str(), t.fp);
				fflush(t.fp);
				}
			continue;
			}
		coop::world world;
		bool systematic = w[0] == "sys";
		if (!systematic)
			{
			world.random_tail = true;
			world.rng.seed(atoi(w[1].c_str()));
			}
		std::vector<int> forced;
		while (runs < limit)
			{
			the_clock = 0;
			std::string line;
				{
				std::unique_ptr<experiment> x(make(w));
				if (!systematic)
					world.switch_percent = 5 + (runs * 37) % 90;
				world.run(x->start(), forced);
				if (world.overrun)
					{
					line = "{\"e\":\"stuck\"}\n";
					x.release();
					}
				else
					line = x->finish();
				}
			runs++;
			if (seen.insert(line).second && seen.size() < 4000)
				{
				fputs(line.c_str(), t.fp);
				fflush(t.fp);
				}
			if (systematic && !world.next(forced, atoi(w[1].c_str())))
				break;
			}
		fprintf(t.fp, "{\"e\":\"note\",\"runs\":%ld}\n", runs);
		fflush(t.fp);
		}
	return 0;
	}
