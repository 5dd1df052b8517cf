// P31: the general purpose compressors.  P38: arithmetic on bits.  Commands:
//   object zlib|zstd                         another compressor
//   encode OBJ LIMIT chunk...                chunk = byte value x count ("65x10") or random bytes ("r7x10": seed 7)
//                                            LIMIT: bytes, or "+k" roomy, or "n" / "n-k" / "n+k" relative to the source, "g" ... to the piece before
//   decode OBJ PIECE ROOM CUT HURT           ROOM as LIMIT; CUT: bytes, or "p500" per thousand; HURT: byte to change or -1
//   log KIND v...                            KIND u8 u16 u32 u64 i32: logarithms and first bits of each value
//   root KIND v...
//   field x h l
#include <memory>
#include <stdexcept>
#include "common.h"
#include "compress_general_zlib.h"
#include "compress_general_zstd.h"
#include "maths.h"
using namespace JASS;
static const size_t BEYOND = 8192;
struct piece
	{
	std::string source, bytes;
	};
static size_t amount(const std::string &s, size_t n)
	{
	if (s[0] == '+')
		return n + n / 32 + 1024 + strtoul(s.c_str() + 1, nullptr, 10);
	if (s[0] == 'n')
		{
		long d = s.size() > 1 ? strtol(s.c_str() + 1, nullptr, 10) : 0;
		return (long)n + d < 0 ? 0 : n + d;
		}
	return strtoul(s.c_str(), nullptr, 10);
	}
static std::string source_of(const std::vector<std::string> &w, size_t from)
	{
	std::string r;
	for (size_t i = from; i < w.size(); i++)
		{
		size_t count = strtoul(w[i].c_str() + w[i].find('x') + 1, nullptr, 10);
		if (w[i][0] == 'r')
			{
			uint64_t s = strtoul(w[i].c_str() + 1, nullptr, 10) * 2654435761u + 88172645463325252ull;
			for (size_t k = 0; k < count; k++)
				{
				s ^= s << 13, s ^= s >> 7, s ^= s << 17;
				r += (char)(s >> 32);
				}
			}
		else
			r.append(count, (char)strtoul(w[i].c_str(), nullptr, 10));
		}
	return r;
	}
static long past_of(const std::vector<uint8_t> &into, size_t limit)
	{
	for (size_t i = into.size(); i-- > limit;)
		if (into[i] != 0xA5)
			return (long)(i - limit + 1);
	return 0;
	}
// a value as the places of its set bits
static std::string places(uint64_t x)
	{
	std::vector<int> v;
	for (int b = 0; b < 64; b++)
		if (x >> b & 1)
			v.push_back(b);
	return vf::jnums(v);
	}
template <typename T> static vf::event logs(const std::string &kind, uint64_t x)
	{
	vf::event e("log");
	e.str("kind", kind).raw("x", places(x)).num("floor", (long long)maths::floor_log2<T>((T)x)).num("ceiling", (long long)maths::ceiling_log2<T>((T)x));
	if (sizeof(T) == 8)
		e.num("first", maths::find_first_set_bit((uint64_t)x));
	else
		e.num("first", maths::find_first_set_bit((uint32_t)x));
	return e;
	}
template <typename T> static vf::event root(uint64_t x)
	{
	return vf::event("root").num("x", (long long)x).num("root", (long long)maths::sqrt_compiletime<T>((T)x));
	}
int main(int argc, char *argv[])
	{
	vf::scenario sc(argv[1]);
	vf::trace out(argv[2]);
	std::vector<std::unique_ptr<compress_general>> object;
	std::vector<piece> pieces;
	for (auto &w : sc.lines)
		if (w[0] == "object")
			{
			if (w[1] == "zlib")
				object.emplace_back(new compress_general_zlib);
			else
				object.emplace_back(new compress_general_zstd);
			}
		else if (w[0] == "encode")
			{
			piece p;
			p.source = source_of(w, 3);
			std::string before = p.source;
			size_t limit = w[2][0] != 'g' ? amount(w[2], p.source.size()) : pieces.empty() ? 0 : amount("n" + w[2].substr(1), pieces.back().bytes.size());
			std::vector<uint8_t> into(limit + BEYOND, 0xA5);
			size_t got = object[atoi(w[1].c_str())]->encode(into.data(), limit, p.source.data(), p.source.size());
			out.emit(vf::event("encode").num("n", p.source.size()).num("limit", limit).num("got", got).num("past", past_of(into, limit)).boolean("kept", p.source == before));
			if (got > 0 && got <= limit)
				{
				p.bytes.assign((char *)into.data(), got);
				pieces.push_back(p);
				}
			}
		else if (w[0] == "decode")
			{
			size_t which = strtoul(w[2].c_str(), nullptr, 10);
			if (which >= pieces.size())
				continue;
			const piece &p = pieces[which];
			std::string b = p.bytes;
			size_t room = amount(w[3], p.source.size());
			size_t cut = w[4][0] == 'p' ? (b.size() * strtoul(w[4].c_str() + 1, nullptr, 10) + 999) / 1000 : strtoul(w[4].c_str(), nullptr, 10);
			cut = cut >= b.size() ? b.size() - 1 : cut;
			b.resize(b.size() - cut);
			long hurt = atol(w[5].c_str());
			if (hurt >= 0)
				b[hurt % b.size()] ^= 0x55;
			std::string before = b;
			std::vector<uint8_t> into(room + BEYOND, 0xA5);
			size_t got = object[atoi(w[1].c_str())]->decode(into.data(), room, b.data(), b.size());
			out.emit(vf::event("decode").num("n", p.source.size()).num("room", room).num("cut", cut).boolean("hurt", hurt >= 0).num("got", got)
				.boolean("same", got == p.source.size() && got <= room && std::string((char *)into.data(), got) == p.source).num("past", past_of(into, room)).boolean("kept", b == before));
			}
		else if (w[0] == "log")
			{
			for (size_t i = 2; i < w.size(); i++)
				{
				uint64_t x = strtoull(w[i].c_str(), nullptr, 10);
				out.emit(w[1] == "u8" ? logs<uint8_t>(w[1], x) : w[1] == "u16" ? logs<uint16_t>(w[1], x) : w[1] == "u32" ? logs<uint32_t>(w[1], x) : w[1] == "i32" ? logs<int32_t>(w[1], x) : logs<uint64_t>(w[1], x));
				}
			}
		else if (w[0] == "root")
			{
			for (size_t i = 2; i < w.size(); i++)
				{
				uint64_t x = strtoull(w[i].c_str(), nullptr, 10);
				out.emit(w[1] == "u32" ? root<uint32_t>(x) : w[1] == "i32" ? root<int32_t>(x) : root<uint64_t>(x));
				}
			}
	return 0;
	}
