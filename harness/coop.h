// Cooperative scheduling of code that synchronises through std::atomic: every operation on an atomic is a point at
// which the scheduler may switch to another thread.  Include this BEFORE the header under test; it renames
// std::atomic in what follows to an instrumented stand-in with the same interface.
#pragma once
#include <ucontext.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <ostream>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <immintrin.h>

namespace coop
{
class world
	{
	public:
		struct fiber { ucontext_t ctx; std::vector<char> stack; std::function<void()> fn; bool done = true; };
		struct decision { int options; int chosen; bool free; };			// free: the running thread could not have continued anyway
		std::vector<std::unique_ptr<fiber>> fibers;
		ucontext_t main_ctx;
		int current = -1;
		std::vector<int> prefix;
		std::vector<decision> made;
		std::mt19937_64 rng;
		bool random_tail = false;
		int switch_percent = 0;
		size_t steps = 0;
		size_t max_steps = 200000;
		bool overrun = false;

		static world *&self() { static world *w = nullptr; return w; }
		static void entry() { world *w = self(); w->fibers[w->current]->fn(); w->fibers[w->current]->done = true; swapcontext(&w->fibers[w->current]->ctx, &w->main_ctx); }

		void yield()
			{
			if (current < 0)
				return;
			int me = current;
			swapcontext(&fibers[me]->ctx, &main_ctx);
			}

		// runs the functions to completion under one schedule
		void run(std::vector<std::function<void()>> fns, const std::vector<int> &forced)
			{
			self() = this;
			prefix = forced;
			made.clear();
			steps = 0;
			overrun = false;
			fibers.clear();
			for (auto &f : fns)
				{
				fibers.emplace_back(new fiber);
				auto &x = *fibers.back();
				x.fn = f;
				x.done = false;
				x.stack.resize(256 * 1024);
				getcontext(&x.ctx);
				x.ctx.uc_stack.ss_sp = x.stack.data();
				x.ctx.uc_stack.ss_size = x.stack.size();
				x.ctx.uc_link = &main_ctx;
				makecontext(&x.ctx, (void (*)())entry, 0);
				}
			int last = -1;
			while (true)
				{
				std::vector<int> runnable;
				bool can_continue = last >= 0 && !fibers[last]->done;
				if (can_continue)
					runnable.push_back(last);
				for (int i = 0; i < (int)fibers.size(); i++)
					if (!fibers[i]->done && i != last)
						runnable.push_back(i);
				if (runnable.empty())
					break;
				int pick = 0;
				if (runnable.size() > 1)
					{
					if (made.size() < prefix.size())
						pick = prefix[made.size()] % runnable.size();
					else if (random_tail)
						pick = (!can_continue || (int)(rng() % 100) < switch_percent) ? rng() % runnable.size() : 0;
					else if (steps > max_steps / 2)
						pick = steps % runnable.size();				// be fair in the end, so that a spinning thread is overtaken
					made.push_back({(int)runnable.size(), pick, !can_continue});
					}
				if (++steps > max_steps)
					{
					overrun = true;
					break;
					}
				last = current = runnable[pick];
				swapcontext(&main_ctx, &fibers[last]->ctx);
				current = -1;
				}
			self() = nullptr;
			}

		// the next schedule, depth first, with at most `bound` pre-emptions; false when the space is exhausted
		bool next(std::vector<int> &forced, int bound) const
			{
			for (int i = (int)made.size() - 1; i >= 0; i--)
				{
				int used = 0;
				for (int j = 0; j < i; j++)
					if (!made[j].free && made[j].chosen != 0)
						used++;
				int cost = made[i].free ? 0 : 1;
				if (made[i].chosen + 1 < made[i].options && used + cost <= bound)
					{
					forced.clear();
					for (int j = 0; j < i; j++)
						forced.push_back(made[j].chosen);
					forced.push_back(made[i].chosen + 1);
					return true;
					}
				}
			return false;
			}
	};
inline void point() { world *w = world::self(); if (w) w->yield(); }
inline int me() { world *w = world::self(); return w ? w->current : -1; }
}

namespace std
{
template <typename T> class verif_atomic
	{
	private:
		T value;
	public:
		verif_atomic() noexcept = default;
		constexpr verif_atomic(T v) noexcept : value(v) {}
		verif_atomic(const verif_atomic &) = delete;
		verif_atomic &operator=(const verif_atomic &) = delete;
		static constexpr bool is_always_lock_free = true;
		bool is_lock_free() const { return true; }
		operator T() const { return load(); }
		T operator=(T v) { store(v); return v; }
		T load(memory_order = memory_order_seq_cst) const { coop::point(); return value; }
		void store(T v, memory_order = memory_order_seq_cst) { coop::point(); value = v; }
		T exchange(T v, memory_order = memory_order_seq_cst) { coop::point(); T o = value; value = v; return o; }
		bool compare_exchange_strong(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst)
			{
			coop::point();
			if (value == e)
				{
				value = d;
				return true;
				}
			e = value;
			return false;
			}
		bool compare_exchange_weak(T &e, T d, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) { return compare_exchange_strong(e, d, a, b); }
		template <typename U> T fetch_add(U v, memory_order = memory_order_seq_cst) { coop::point(); T o = value; value = value + v; return o; }
		template <typename U> T fetch_sub(U v, memory_order = memory_order_seq_cst) { coop::point(); T o = value; value = value - v; return o; }
		template <typename U> T fetch_or(U v, memory_order = memory_order_seq_cst) { coop::point(); T o = value; value = value | v; return o; }
		template <typename U> T fetch_and(U v, memory_order = memory_order_seq_cst) { coop::point(); T o = value; value = value & v; return o; }
		template <typename U> T fetch_xor(U v, memory_order = memory_order_seq_cst) { coop::point(); T o = value; value = value ^ v; return o; }
		T operator++() { return fetch_add(1) + 1; }
		T operator++(int) { return fetch_add(1); }
		T operator--() { return fetch_sub(1) - 1; }
		T operator--(int) { return fetch_sub(1); }
		template <typename U> T operator+=(U v) { return fetch_add(v) + v; }
		template <typename U> T operator-=(U v) { return fetch_sub(v) - v; }
		template <typename U> T operator|=(U v) { return fetch_or(v) | v; }
		template <typename U> T operator&=(U v) { return fetch_and(v) & v; }
	};
}
#ifndef COOP_REAL
#define atomic verif_atomic
#endif
