// P12, P27, P29: heaps, beaps and top-k sorting, accumulators, bit strings and bit streams.
//   heap v,v,..  op...         op: m | p:key (only when above the root) | f:key | u:pos:key
//   beap v,v,..  op...         op: m | f:key | s:key | r:old:new | l:old:new | g:old:new | e:old:new | q:old:new
//   topk plain|boxed k op...   op: p:v | f | s | b:index:amount
//   sort k v,v,...
//   acc KIND op...             op: I:n:w | a:i:x | s:i:x | g:i | z | x:i | r | R:n | v:i,..(8) | V:i,..(16)
//   simd gather|scatter BITS lanes index,.. value,..      simd sum 32 lanes value,..
//   bits op...                 op: n:s:len | + - ? :s:pos | o x a d :ans:a:b | c:s | i:s:which | 0:s | 1:s | z:s | b:s
//   stream bytes op...         op: 0 | 1 | z:n | b:value:length      then reads back the same lengths
#include <memory>
#include <new>
#include <sstream>
#include "common.h"
#include "asserts.h"
#include "heap.h"
#include "beap.h"
#include "top_k_heap.h"
#include "top_k_qsort.h"
#include "pointer_box.h"
#include "accumulator_2d.h"
#include "accumulator_counter.h"
#include "accumulator_counter_interleaved.h"
#include "bitstring.h"
#include "bitstream.h"
#include "simd.h"
using namespace JASS;
typedef std::vector<std::string> words;
static words cut(const std::string &s, char at)
	{
	words w;
	std::istringstream in(s);
	std::string x;
	while (std::getline(in, x, at))
		w.push_back(x);
	return w;
	}
static std::vector<int> ints(const std::string &s)
	{
	std::vector<int> v;
	if (s != "-")
		for (auto &x : cut(s, ','))
			v.push_back((int)strtol(x.c_str(), nullptr, 10));
	return v;
	}
static long num(const words &w, size_t i) { return i < w.size() ? strtol(w[i].c_str(), nullptr, 10) : 0; }

// the array lives in a heap block of its own, so that reads and writes beyond it are seen
static void heaps(vf::trace &out, const words &w, bool is_heap)
	{
	std::vector<int> start = ints(w[1]);
	size_t n = start.size();
	std::unique_ptr<int[]> data(new int[n]);
	std::copy(start.begin(), start.end(), data.get());
	heap<int> h(data.get(), n);
	beap<int> b(data.get(), n);
	for (size_t i = 2; i < w.size(); i++)
		{
		auto op = cut(w[i], ':');
		std::vector<int> before(data.get(), data.get() + n);
		long ret = 0, x = num(op, 1), y = num(op, 2);
		if (is_heap)
			{
			if (op[0] == "m") h.make_heap();
			if (op[0] == "p") h.push_back((int)x);
			if (op[0] == "f") ret = h.find((int)x);
			if (op[0] == "u") h.promote((int)y, x);
			}
		else
			{
			if (op[0] == "m") b.make_beap();
			if (op[0] == "f") ret = b.find((int)x);
			if (op[0] == "s") ret = b.replace_smallest_with((int)x);
			if (op[0] == "r") ret = b.replace((int)x, (int)y);
			if (op[0] == "l") ret = b.replace_with_larger((int)x, (int)y);
			if (op[0] == "e") ret = b.replace_with_smaller((int)x, (int)y);
			if (op[0] == "g") ret = b.guaranteed_replace_with_larger((int)x, (int)y);
			if (op[0] == "q") ret = b.guaranteed_replace_with_smaller((int)x, (int)y);
			}
		out.emit(vf::event(is_heap ? "heap" : "beap").str("op", op[0]).num("x", x).num("y", y).raw("before", vf::jnums(before))
			.raw("after", vf::jnums(std::vector<int>(data.get(), data.get() + n))).num("ret", ret).boolean("good", is_heap || b.isbeap()));
		}
	}
template <typename T, typename MAKE, typename VALUE, typename BUMP> static void topk(vf::trace &out, const words &w, MAKE make, VALUE value, BUMP bump)
	{
	allocator_pool memory;
	top_k_heap<T> h((size_t)num(w, 2), memory);
	std::vector<std::string> did;
	for (size_t i = 3; i < w.size(); i++)
		{
		auto op = cut(w[i], ':');
		long x = num(op, 1), y = num(op, 2), ret = 0, was = 0;
		if (op[0] == "p") h.push_back(make((int)x));
		if (op[0] == "f")
			{
			if (h.size() == 0)
				continue;
			ret = value(h.front());
			}
		if (op[0] == "s") h.sort();
		if (op[0] == "b")
			{
			if (h.size() == 0)
				continue;
			auto e = *(h.begin() + x % h.size());
			was = value(e);
			bump(e, (int)y);
			ret = value(e);
			h.promote(e);
			}
		std::vector<int> now;
		for (auto &e : h)
			now.push_back(value(e));
		did.push_back("[" + vf::jstr(op[0]) + "," + std::to_string(x) + "," + std::to_string(was) + "," + std::to_string(ret) + "," + vf::jnums(now) + "]");
		}
	out.emit(vf::event("topk").num("k", num(w, 2)).raw("ops", vf::jlist(did)).num("capacity", (long)h.capacity()).num("size", (long)h.size()));
	}
template <typename ACC, typename ELEMENT> static void accumulate(vf::trace &out, const words &w, long top)
	{
	void *memory = nullptr;
	if (posix_memalign(&memory, 64, sizeof(ACC)))
		exit(9);
	memset(memory, 0xA5, sizeof(ACC));
	ACC *acc = new (memory) ACC;
	std::vector<std::string> did;
	for (size_t i = 2; i < w.size(); i++)
		{
		auto op = cut(w[i], ':');
		long x = num(op, 1), y = num(op, 2);
		std::string ret = "0";
		if (op[0] == "I") acc->init(x, y);
		if (op[0] == "a") ret = std::to_string((long)((*acc)[x] += (ELEMENT)y));
		if (op[0] == "s") ret = std::to_string((long)((*acc)[x] = (ELEMENT)y));
		if (op[0] == "g") ret = std::to_string((long)acc->get_value(x));
		if (op[0] == "z") ret = std::to_string((long)acc->size());
		if (op[0] == "x") ret = std::to_string((long)acc->get_index(&(*acc)[x]));
		if (op[0] == "r") acc->rewind();
		if (op[0] == "R")
			for (long k = 0; k < x; k++)
				acc->rewind();
		std::string args = std::to_string(x) + "," + std::to_string(y);
		if (op[0] == "v" || op[0] == "V")
			{
			if constexpr (std::is_same<ACC, accumulator_2d<ELEMENT, 1500>>::value)
				{
				auto at = ints(op[1]);
				alignas(64) int32_t from[16], to[16];
				size_t lanes = op[0] == "v" ? 8 : 16;
				for (size_t k = 0; k < 16; k++)
					from[k] = at[k % at.size()];
				if (op[0] == "v")
					_mm256_store_si256((__m256i *)to, (*acc)[_mm256_load_si256((__m256i *)from)]);
				else
					_mm512_store_si512((void *)to, (*acc)[_mm512_load_si512((void *)from)]);
				args = vf::jnums(std::vector<int>(from, from + lanes)) + ",0";
				ret = vf::jnums(std::vector<int>(to, to + lanes));
				}
			else
				continue;
			}
		did.push_back("[" + vf::jstr(op[0]) + "," + args + "," + ret + "]");
		}
	out.emit(vf::event("acc").num("top", top).raw("ops", vf::jlist(did)));
	acc->~ACC();
	free(memory);
	}
template <typename ELEMENT> static bool accumulators(vf::trace &out, const words &w, const std::string &k, long top)
	{
	if (k == "2d") accumulate<accumulator_2d<ELEMENT, 1500>, ELEMENT>(out, w, top);
	else if (k == "c8") accumulate<accumulator_counter<ELEMENT, 1000, 8>, ELEMENT>(out, w, top);
	else if (k == "c4") accumulate<accumulator_counter<ELEMENT, 1000, 4>, ELEMENT>(out, w, top);
	else if (k == "i8") accumulate<accumulator_counter_interleaved<ELEMENT, 1000, 8>, ELEMENT>(out, w, top);
	else if (k == "i4") accumulate<accumulator_counter_interleaved<ELEMENT, 1000, 4>, ELEMENT>(out, w, top);
	else if (k == "i81") accumulate<accumulator_counter_interleaved<ELEMENT, 1000, 8, 1>, ELEMENT>(out, w, top);
	else if (k == "i832") accumulate<accumulator_counter_interleaved<ELEMENT, 1000, 8, 32>, ELEMENT>(out, w, top);
	else if (k == "i432") accumulate<accumulator_counter_interleaved<ELEMENT, 1000, 4, 32>, ELEMENT>(out, w, top);
	else return false;
	return true;
	}
static void bits(vf::trace &out, const words &w)
	{
	bitstring s[4];
	std::vector<std::string> did;
	for (size_t i = 1; i < w.size(); i++)
		{
		auto op = cut(w[i], ':');
		long x = num(op, 1), y = num(op, 2), z = num(op, 3);
		bitstring &a = s[x & 3], &b = s[y & 3], &c = s[z & 3];
		std::string ret = "0";
		if (op[0] == "n") a.resize(y);
		if (op[0] == "+") a.setbit(y);
		if (op[0] == "-") a.unsetbit(y);
		if (op[0] == "?") ret = std::to_string((int)a.getbit(y));
		if (op[0] == "o") b.bit_or(a, c);
		if (op[0] == "x") b.bit_xor(a, c);
		if (op[0] == "a") b.bit_and(a, c);
		if (op[0] == "d") b.bit_and_not(a, c);
		if (op[0] == "c") ret = std::to_string((long)a.popcount());
		if (op[0] == "i")
			{
			if (a.size() == 0)
				continue;
			size_t at = a.index(y);
			ret = at == (std::numeric_limits<size_t>::max)() ? "-1" : std::to_string((long)at);
			}
		if (op[0] == "0") a.zero();
		if (op[0] == "1") a.one();
		if (op[0] == "z") ret = std::to_string((long)a.size());
		if (op[0] == "b")
			{
			if (a.size() == 0)
				continue;
			size_t length;
			uint8_t *p = a.serialise(length);
			if (length < (a.size() + 7) / 8)
				ret = "[]";
			else
				ret = vf::jbytes(p, (a.size() + 7) / 8);
			}
		did.push_back("[" + vf::jstr(op[0]) + "," + std::to_string(x & 3) + "," + std::to_string(y) + "," + std::to_string(z) + "," + ret + "]");
		}
	out.emit(vf::event("bits").raw("ops", vf::jlist(did)));
	}
static void stream(vf::trace &out, const words &w)
	{
	static bitstream b;										// one object used again and again
	size_t room = num(w, 1);
	size_t whole = room / 4 * 4;
	std::unique_ptr<uint32_t[]> memory(new uint32_t[whole / 4 + 1]);
	uint8_t *into = (uint8_t *)memory.get();
	memset(into, 0xA5, whole + 4);
	b.rewind(into, room);
	std::vector<std::string> did;
	std::vector<size_t> lengths;
	for (size_t i = 2; i < w.size(); i++)
		{
		auto op = cut(w[i], ':');
		uint64_t x = op.size() > 1 ? strtoull(op[1].c_str(), nullptr, 10) : 0;
		long y = num(op, 2);
		if (op[0] == "0") { b.push_zero(); lengths.push_back(1); did.push_back("[0]"); }
		if (op[0] == "1") { b.push_one(); lengths.push_back(1); did.push_back("[1]"); }
		if (op[0] == "z") { b.push_zeros(x); lengths.push_back(x); did.push_back(vf::jnums(std::vector<int>(x, 0))); }
		if (op[0] == "b")
			{
			b.push_bits(x, y);
			lengths.push_back(y);
			std::vector<int> v;
			for (long k = y - 1; k >= 0; k--)
				v.push_back((x >> k) & 1);
			did.push_back(vf::jnums(v));
			}
		}
	size_t used = b.eof();
	vf::event e("stream");
	e.num("room", (long)whole).raw("pushed", vf::jlist(did)).num("used", (long)used);
	e.boolean("beyond", memcmp(into + whole, "\xA5\xA5\xA5\xA5", 4) != 0);
	std::vector<std::string> back;
	if (used > 0)
		{
		e.raw("bytes", vf::jbytes(into, used));
		b.rewind(into, whole);
		for (auto n : lengths)
			if (n <= 64)
				{
				uint64_t got = b.get_bits(n);
				std::vector<int> v;
				for (long k = (long)n - 1; k >= 0; k--)
					v.push_back((got >> k) & 1);
				back.push_back(vf::jnums(v));
				}
			else
				{
				std::vector<int> v;
				for (size_t k = 0; k < n; k++)
					v.push_back(b.get_bit());
				back.push_back(vf::jnums(v));
				}
		}
	else
		e.raw("bytes", "[]");
	e.raw("back", vf::jlist(back));
	out.emit(e);
	}
template <typename T> static void simd_access(vf::trace &out, const words &w)
	{
	// gather|scatter bits lanes index,.. values,..
	static T array[320];
	size_t lanes = (size_t)num(w, 3);
	auto at = ints(w[4]);
	auto v = ints(w[5]);
	alignas(64) int32_t where[16], value[16];
	for (size_t k = 0; k < 16; k++)
		{
		where[k] = at[k % at.size()];
		value[k] = v[k % v.size()];
		}
	for (size_t k = 0; k < 320; k++)
		array[k] = (T)(k * 2654435761u >> 7);
	std::vector<long> before(array, array + 300);
	alignas(64) int32_t to[16] = {};
	if (w[1] == "gather")
		{
		if (lanes == 8)
			_mm256_store_si256((__m256i *)to, simd::gather(array, _mm256_load_si256((__m256i *)where)));
		else
			_mm512_store_si512((void *)to, simd::gather(array, _mm512_load_si512((void *)where)));
		}
	else if (lanes == 4)
		simd::scatter(array, _mm_load_si128((__m128i *)where), _mm_load_si128((__m128i *)value));
	else if (lanes == 8)
		simd::scatter(array, _mm256_load_si256((__m256i *)where), _mm256_load_si256((__m256i *)value));
	else
		simd::scatter(array, _mm512_load_si512((void *)where), _mm512_load_si512((void *)value));
	std::vector<long> after(array, array + 300), got(to, to + lanes);
	if (sizeof(T) == 4)
		{
		for (auto &x : before) x = (int32_t)x;
		for (auto &x : after) x = (int32_t)x;
		}
	out.emit(vf::event("simd").str("op", w[1]).num("top", sizeof(T) == 1 ? 256 : sizeof(T) == 2 ? 65536 : 0).raw("before", vf::jnums(before)).raw("after", vf::jnums(after))
		.raw("at", vf::jnums(std::vector<int>(where, where + lanes))).raw("value", vf::jnums(std::vector<int>(value, value + lanes))).raw("out", vf::jnums(got)));
	}
static void simd_sum(vf::trace &out, const words &w)
	{
	size_t lanes = (size_t)num(w, 3);
	auto v = ints(w[4]);
	alignas(64) int32_t value[16], to[16];
	for (size_t k = 0; k < 16; k++)
		value[k] = v[k % v.size()];
	if (lanes == 8)
		_mm256_store_si256((__m256i *)to, simd::cumulative_sum(_mm256_load_si256((__m256i *)value)));
	else
		_mm512_store_si512((void *)to, simd::cumulative_sum(_mm512_load_si512((void *)value)));
	out.emit(vf::event("simdsum").raw("value", vf::jnums(std::vector<int>(value, value + lanes))).raw("out", vf::jnums(std::vector<int>(to, to + lanes))));
	}
int main(int argc, char *argv[])
	{
	vf::scenario sc(argv[1]);
	vf::trace out(argv[2]);
	for (auto &w : sc.lines)
		{
		if (w[0] == "heap" || w[0] == "beap")
			heaps(out, w, w[0] == "heap");
		if (w[0] == "topk" && w[1] == "plain")
			topk<int>(out, w, [](int v) { return v; }, [](int v) { return v; }, [](int &, int) {});
		if (w[0] == "topk" && w[1] == "boxed")
			{
			std::vector<std::unique_ptr<int>> all;
			topk<pointer_box<int>>(out, w, [&](int v) { all.emplace_back(new int(v)); return pointer_box<int>(all.back().get()); },
				[](const pointer_box<int> &v) { return *v; }, [](pointer_box<int> &v, int n) { *v += n; });
			}
		if (w[0] == "sort")
			{
			auto v = ints(w[2]);
			size_t n = v.size();
			std::unique_ptr<int[]> data(new int[n]);
			std::copy(v.begin(), v.end(), data.get());
			top_k_qsort::sort(data.get(), n, (size_t)num(w, 1));
			out.emit(vf::event("sort").num("k", num(w, 1)).raw("before", vf::jnums(v)).raw("after", vf::jnums(std::vector<int>(data.get(), data.get() + n))));
			}
		if (w[0] == "acc")
			{
			auto k = cut(w[1], '/');
			bool ok = k[1] == "8" ? accumulators<uint8_t>(out, w, k[0], 256) : k[1] == "16" ? accumulators<uint16_t>(out, w, k[0], 65536) : accumulators<uint32_t>(out, w, k[0], 0);
			if (!ok)
				return 9;
			}
		if (w[0] == "simd")
			{
			if (w[1] == "sum") simd_sum(out, w);
			else if (w[2] == "8") simd_access<uint8_t>(out, w);
			else if (w[2] == "16") simd_access<uint16_t>(out, w);
			else simd_access<uint32_t>(out, w);
			}
		if (w[0] == "bits")
			bits(out, w);
		if (w[0] == "stream")
			stream(out, w);
		}
	return 0;
	}
