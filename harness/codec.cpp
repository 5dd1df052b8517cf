// P11: the integer codecs.  Commands:
//   codec NAME limit show v...    encode into a buffer of `limit` bytes, decode what was written
//   d1 v...      dn N v...        differences
#include <malloc.h>
#include <array>
#include <memory>
#include <stdexcept>
#include <tuple>
#include "common.h"
#include "compress_integer_all.h"
#include "compress_integer_nybble_8.h"
#include "compress_integer_lyck_16.h"
using namespace JASS;
static std::vector<uint32_t> numbers(const std::vector<std::string> &w, size_t from)
	{
	std::vector<uint32_t> v;
	for (size_t i = from; i < w.size(); i++)
		{
		auto x = w[i].find('x');				// value x count
		uint32_t value = (uint32_t)strtoul(w[i].c_str(), nullptr, 10);
		size_t count = x == std::string::npos ? 1 : strtoul(w[i].c_str() + x + 1, nullptr, 10);
		v.insert(v.end(), count, value);
		}
	return v;
	}
static std::string ints(const uint32_t *p, size_t n)
	{
	std::vector<int32_t> v(p, p + n);
	return vf::jnums(v);
	}
// every codec is reached through the interface its users have: the option table of compress_integer_all
template <typename T, size_t... I> static int option_index(const T &list, const std::string &name, std::index_sequence<I...>)
	{
	int found = -1;
	((std::get<I>(list).shortname == name ? (void)(found = (int)I) : (void)0), ...);
	return found;
	}
static std::unique_ptr<compress_integer> make(const std::string &name)
	{
	if (name == "nybble8")
		return std::unique_ptr<compress_integer>(new compress_integer_nybble_8);
	if (name == "lyck16")
		return std::unique_ptr<compress_integer>(new compress_integer_lyck_16);
	std::array<bool, compress_integer_all::compressors_size> option = {};
	auto list = compress_integer_all::parameterlist(option);
	int which = option_index(list, name, std::make_index_sequence<std::tuple_size<decltype(list)>::value>{});
	if (which < 0)
		return nullptr;
	option[which] = true;
	return compress_integer_all::compressor(option);
	}
static const size_t BEYOND = 65536;
int main(int argc, char *argv[])
	{
	vf::scenario sc(argv[1]);
	vf::trace out(argv[2]);
	std::vector<std::pair<std::string, std::unique_ptr<compress_integer>>> live;		// one object per codec, used again and again
	for (auto &w : sc.lines)
		if (w[0] == "codec")
			{
			compress_integer *codec = nullptr;
			for (auto &l : live)
				if (l.first == w[1])
					codec = l.second.get();
			if (codec == nullptr)
				{
				live.emplace_back(w[1], make(w[1]));
				codec = live.back().second.get();
				}
			size_t limit = strtoul(w[2].c_str(), nullptr, 10);
			auto in = numbers(w, 4);
			void *memory;
			if (posix_memalign(&memory, 64, limit + BEYOND + in.size() * 64))
				return 9;
			uint8_t *into = (uint8_t *)memory;
			size_t total = limit + BEYOND + in.size() * 64;
			memset(into, 0xA5, total);
			std::vector<uint32_t> source(in);
			size_t got = codec->encode(into, limit, source.data(), source.size());
			long last = -1;
			for (size_t i = total; i-- > limit;)
				if (into[i] != 0xA5)
					{
					last = (long)i;
					break;
					}
			std::vector<uint32_t> decoded(in.size() + 2048, 0x5A5A5A5A);
			std::string bytes = "[]";
			if (got > 0 && got <= total)
				{
				void *copy;
				if (posix_memalign(&copy, 64, got + 4096))
					return 9;
				memset(copy, 0xEE, got + 4096);
				memcpy(copy, into, got);
				codec->decode(decoded.data(), in.size(), copy, got);
				if (w[3] == "1")
					bytes = vf::jbytes(into, got);
				free(copy);
				}
			free(memory);
			out.emit(vf::event("codec").str("c", w[1]).num("limit", limit).num("got", got).num("past", last < 0 ? 0 : last - (long)limit + 1)
				.raw("in", ints(in.data(), in.size())).raw("out", got ? ints(decoded.data(), in.size()) : "[]").raw("bytes", bytes));
			}
		else if (w[0] == "d1")
			{
			auto in = numbers(w, 1);
			std::vector<uint32_t> enc(in.size()), dec(in.size());
			size_t got = compress_integer::d1_encode(enc.data(), in.data(), in.size());
			compress_integer::d1_decode(dec.data(), enc.data(), enc.size());
			out.emit(vf::event("d1").num("got", got).raw("in", ints(in.data(), in.size())).raw("enc", ints(enc.data(), enc.size())).raw("dec", ints(dec.data(), dec.size())));
			}
		else if (w[0] == "dn")
			{
			size_t n = strtoul(w[1].c_str(), nullptr, 10);
			auto in = numbers(w, 2);
			std::vector<uint32_t> enc(in.size()), dec(in.size());
			size_t got = compress_integer::dn_encode(enc.data(), in.data(), in.size(), n);
			compress_integer::dn_decode(dec.data(), enc.data(), enc.size(), n);
			out.emit(vf::event("dn").num("n", n).num("got", got).raw("in", ints(in.data(), in.size())).raw("enc", ints(enc.data(), enc.size())).raw("dec", ints(dec.data(), dec.size())));
			}
	return 0;
	}
