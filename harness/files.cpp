// P17, P25, P30: files, sources of bytes, channels and topics.  Commands (words are percent-encoded, files are in the
// directory the harness runs in):
//   put name bytes | get name had | map name | look name | isdir name | mkdir name | lines text
//   open name mode | write bytes | fill n | read n | vread n | seek n | tell | size | flush | vbuf n | close
//   source memory|file|stream n,n,... bytes
//   source gz|damaged n,n,... [cut] member...        each member its own gzip (z:... zlib) stream, `piece` bytes at a time from below
//   source directory n,n,... name=plain:bytes|name=gz:bytes|name=dir: ...
//   send name kind:value... | hear name|buffer asks [text] | topics file|buffer tags text
#include <memory>
#include <sstream>
#include <limits>
#include <cstddef>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <zlib.h>
#include "common.h"
#include "asserts.h"
#include "parser.h"
#include "file.h"
#include "instream_file.h"
#include "instream_file_star.h"
#include "instream_memory.h"
#include "instream_deflate.h"
#include "instream_directory_iterator.h"
#include "channel_file.h"
#include "channel_buffer.h"
#include "channel_trec.h"
#include "allocator_pool.h"
#include "allocator_cpp.h"
#include "string_cpp.h"
#include "classes.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static std::vector<size_t> numbers(const std::string &s)
	{
	std::vector<size_t> n;
	std::istringstream in(s);
	std::string x;
	while (std::getline(in, x, ','))
		n.push_back(atol(x.c_str()));
	return n;
	}

static std::string deflated(const std::string &data, bool gz, int level)
	{
	z_stream z;
	memset(&z, 0, sizeof(z));
	deflateInit2(&z, level, Z_DEFLATED, gz ? 15 + 16 : 15, 8, Z_DEFAULT_STRATEGY);
	std::string out(deflateBound(&z, data.size()) + 64, '\0');
	z.next_in = (Bytef *)data.data();
	z.avail_in = data.size();
	z.next_out = (Bytef *)&out[0];
	z.avail_out = out.size();
	deflate(&z, Z_FINISH);
	out.resize(z.total_out);
	deflateEnd(&z);
	return out;
	}

static void whole(const std::string &name, const std::string &bytes)
	{
	std::ofstream(name, std::ios::binary) << bytes;
	}

// a source that hands over at most a few bytes at a time
class dribble : public instream
	{
	public:
		std::string data;
		size_t at, piece;
		dribble(const std::string &data, size_t piece) : data(data), at(0), piece(piece) {}
		virtual void read(document &buffer)
			{
			size_t n = std::min(std::min(piece, data.size() - at), buffer.contents.size());
			if (n == 0)
				{
				buffer.contents = slice();
				return;
				}
			memcpy(buffer.contents.address(), data.data() + at, n);
			buffer.contents.resize(n);
			at += n;
			}
	};

static std::vector<std::string> asked(instream &from, const std::vector<size_t> &sizes)
	{
	std::vector<std::string> got;
	for (size_t n : sizes)
		{
		std::unique_ptr<uint8_t []> into(new uint8_t [n]);		// exactly n bytes: what is written beyond is seen
		size_t have = from.fetch(into.get(), n);
		got.push_back(have > n ? "[-1]" : vf::jbytes(into.get(), have));
		}
	return got;
	}

static void source(vf::trace &out, const std::vector<std::string> &w, size_t which)
	{
	std::vector<std::string> parts, got;
	long long before, kept = 0;
	auto sizes = numbers(w[2]);
	std::string name = "source" + std::to_string(which);
	got.reserve(sizes.size());
	parts.reserve(w.size());
	if (w[1] == "memory" || w[1] == "file" || w[1] == "stream")
		{
		std::string bytes = w.size() > 3 ? vf::unpct(w[3]) : "";
		parts.push_back(vf::jbytes(bytes));
		whole(name, bytes);
		if (w[1] == "memory")
			{
			std::unique_ptr<uint8_t []> copy(new uint8_t [bytes.size()]);
			memcpy(copy.get(), bytes.data(), bytes.size());
			instream_memory from(copy.get(), bytes.size());
			got = asked(from, sizes);
			}
		else if (w[1] == "file")
			{
			instream_file from(name);
			got = asked(from, sizes);
			}
		else
			{
			instream_file_star from(::fopen(name.c_str(), "rb"));
			got = asked(from, sizes);
			}
		::remove(name.c_str());
		}
	else if (w[1] == "gz" || w[1] == "damaged")
		{
		size_t cut = atol(w[3].c_str()), piece = atol(w[4].c_str());
		std::string all;
		for (size_t k = 5; k < w.size(); k++)
			{
			bool gz = w[k].substr(0, 2) != "z:";
			std::string data = vf::unpct(gz ? w[k] : w[k].substr(2));
			if (data.substr(0, 1) == "*")			// *n: n bytes in a pattern
				{
				size_t n = atol(data.c_str() + 1);
				data = "";
				for (size_t i = 0; i < n; i++)
					data += (char)(i * 7 + i / 50 + k);
				}
			else
				data = data.substr(data.substr(0, 1) == "=" ? 1 : 0);
			parts.push_back(vf::jbytes(data));
			all += deflated(data, gz, k % 2 ? 9 : 0);
			}
		all.resize(all.size() - std::min(cut, all.size()));
		before = __sanitizer_get_current_allocated_bytes();
			{
			std::shared_ptr<instream> below(new dribble(all, piece));
			instream_deflate from(below);
			got = asked(from, sizes);
			}
		kept = __sanitizer_get_current_allocated_bytes() - before;
		}
	else
		{
		std::filesystem::create_directory(name);
		for (size_t k = 3; k < w.size(); k++)
			{
			size_t eq = w[k].find('='), colon = w[k].find(':', eq);
			std::string file = name + "/" + w[k].substr(0, eq), kind = w[k].substr(eq + 1, colon - eq - 1), data = vf::unpct(w[k].substr(colon + 1));
			if (kind == "dir")
				{
				std::filesystem::create_directory(file);
				whole(file + "/inside", data);
				continue;
				}
			parts.push_back(vf::jbytes(data));
			whole(file, kind == "gz" ? deflated(data, true, 6) : data);
			}
		before = __sanitizer_get_current_allocated_bytes();
			{
			instream_directory_iterator from(name);
			got = asked(from, sizes);
			}
		kept = __sanitizer_get_current_allocated_bytes() - before;
		std::filesystem::remove_all(name);
		}
	out.emit(vf::event("source").str("kind", w[1]).raw("parts", vf::jlist(parts)).raw("asked", vf::jnums(sizes)).raw("got", vf::jlist(got)).num("kept", kept / 1000000));
	}

static std::shared_ptr<char> zstring(const std::string &text)
	{
	std::shared_ptr<char> copy(new char [text.size() + 1], [](char *p) { delete [] p; });
	memcpy(copy.get(), text.c_str(), text.size() + 1);
	return copy;
	}

int main(int argc, char **argv)
	{
	vf::scenario scenario(argv[1]);
	vf::trace out(argv[2]);
	std::unique_ptr<file> open;
	allocator_pool memory;
	allocator_cpp<char> strings(memory);
	size_t which = 0;
	for (const auto &w : scenario.lines)
		{
		which++;
		const std::string &op = w[0];
		std::string b = w.size() > 2 ? vf::unpct(w[2]) : "";
		if (op == "put")
			{
			bool ok = file::write_entire_file(w[1], b);
			out.emit(vf::event("put").str("name", w[1]).boolean("there", w[1].find('/') == std::string::npos).raw("bytes", vf::jbytes(b)).boolean("ok", ok));
			}
		else if (op == "get")
			{
			std::string into = b;
			size_t size = file::read_entire_file(w[1], into);
			out.emit(vf::event("get").str("name", w[1]).num("size", size).raw("bytes", vf::jbytes(into)));
			}
		else if (op == "map")
			{
			file::file_read_only into;
			size_t size = file::read_entire_file(w[1], into);
			const uint8_t *at;
			size_t length = into.read_entire_file(at);
			out.emit(vf::event("map").str("name", w[1]).num("size", size).num("length", length).raw("bytes", vf::jbytes(at, length)));
			}
		else if (op == "look")
			{
			std::ifstream in(w[1], std::ios::binary);
			std::stringstream all;
			all << in.rdbuf();
			out.emit(vf::event("look").str("name", w[1]).raw("bytes", vf::jbytes(all.str())));
			}
		else if (op == "isdir")
			out.emit(vf::event("isdir").str("name", w[1]).boolean("yes", file::is_directory(w[1])));
		else if (op == "mkdir")
			{
			std::filesystem::create_directory(w[1]);
			out.emit(vf::event("mkdir").str("name", w[1]));
			}
		else if (op == "lines")
			{
			std::string text = vf::unpct(w.size() > 1 ? w[1] : ""), copy = text;
			std::vector<uint8_t *> list;
			file::buffer_to_list(list, copy);
			std::vector<std::string> lines;
			for (auto line : list)
				lines.push_back(vf::jbytes(std::string((char *)line)));
			out.emit(vf::event("lines").raw("text", vf::jbytes(text)).raw("lines", vf::jlist(lines)));
			}
		else if (op == "open")
			{
			open = std::make_unique<file>(w[1], w[2]);
			out.emit(vf::event("open").str("name", w[1]).boolean("fresh", w[2][0] == 'w'));
			}
		else if (op == "write" || op == "fill")
			{
			std::string bytes = op == "write" ? vf::unpct(w[1]) : "";
			if (op == "fill")
				for (long i = 0; i < atol(w[1].c_str()); i++)
					bytes += (char)(which * 31 + i * 7 + i / 256);
			size_t wrote = which % 2 ? open->write(bytes) : open->write(bytes.data(), bytes.size());
			out.emit(vf::event("write").raw("bytes", vf::jbytes(bytes)).num("wrote", wrote));
			}
		else if (op == "read" || op == "vread")
			{
			size_t n = atol(w[1].c_str());
			std::vector<uint8_t> into(n);
			size_t got = n;
			if (op == "read")
				got = open->read(into.data(), n);
			else
				{
				open->read(into);
				got = into.size();
				}
			out.emit(vf::event("read").num("n", n).raw("bytes", got > n ? "[-1]" : vf::jbytes(into.data(), got)));
			}
		else if (op == "seek")
			{
			open->seek(atol(w[1].c_str()));
			out.emit(vf::event("seek").num("to", atol(w[1].c_str())));
			}
		else if (op == "tell")
			out.emit(vf::event("tell").num("at", open->tell()));
		else if (op == "size")
			out.emit(vf::event("size").num("size", open->size()));
		else if (op == "flush")
			open->flush();
		else if (op == "vbuf")
			{
			open->flush();
			open->setvbuf(atol(w[1].c_str()));
			}
		else if (op == "close")
			{
			open.reset();
			out.emit(vf::event("close"));
			}
		else if (op == "source")
			source(out, w, which);
		else if (op == "send")
			{
			std::vector<std::string> items;
			{
			channel_file to(w[1]);
			channel &into = to;
			for (size_t k = 2; k < w.size(); k++)
				{
				std::string kind = w[k].substr(0, w[k].find(':')), value = vf::unpct(w[k].substr(w[k].find(':') + 1));
				long long n = atoll(value.c_str());
				if (kind == "number")
					{
					if (k % 3 == 0)
						into << n;
					else if (k % 3 == 1 && n > 0)
						into << (uint64_t)n;
					else
						into << (int)n;
					items.push_back("{\"k\":\"number\",\"neg\":" + std::string(n < 0 ? "true" : "false") + ",\"n\":" + std::to_string(n < 0 ? -n : n) + "}");
					}
				else
					{
					if (kind == "line")
						into.puts(value);
					else if (k % 4 == 0)
						into << value;
					else if (k % 4 == 1)
						into << value.c_str();
					else if (k % 4 == 2)
						into << (const unsigned char *)value.c_str();
					else
						into << JASS::string(value.c_str(), strings);
					items.push_back("{\"k\":\"" + kind + "\",\"v\":" + vf::jbytes(value) + "}");
					}
				}
			}
			out.emit(vf::event("send").str("name", w[1]).raw("items", vf::jlist(items)));
			}
		else if (op == "hear")
			{
			std::unique_ptr<channel> from;
			if (w[1] == "buffer")
				from.reset(new channel_buffer(zstring(vf::unpct(w.size() > 3 ? w[3] : ""))));
			else
				from.reset(new channel_file(w[1]));
			auto asks = numbers(w[2]);
			std::vector<std::string> got;
			for (size_t k = 0; k < asks.size(); k++)
				{
				std::string into = "stale text that must not survive";
				if (asks[k] != 0)
					{
					into.resize(asks[k]);
					from->read(into);
					}
				else if (k % 2)
					from->gets(into);
				else
					{
					JASS::string other("stale", strings);
					from->gets(other);
					into.assign(other.c_str(), other.size());
					}
				got.push_back(vf::jbytes(into));
				}
			out.emit(vf::event("hear").str("name", w[1]).raw("text", vf::jbytes(w.size() > 3 ? vf::unpct(w[3]) : "")).raw("asks", vf::jnums(asks)).raw("got", vf::jlist(got)));
			}
		else if (op == "topics")
			{
			std::string text = vf::unpct(w.size() > 3 ? w[3] : "");
			std::unique_ptr<channel> from;
			if (w[1] == "buffer")
				from.reset(new channel_buffer(zstring(text)));
			else
				{
				whole("topics", text);
				from.reset(new channel_file("topics"));
				}
			channel_trec reader(from, w[2]);
			std::vector<std::string> got;
			size_t after = 0;
			std::string into = "stale";
			for (size_t k = 0; k < 1000; k++)
				{
				reader.gets(into);
				if (into.size() == 0)
					break;
				got.push_back(vf::jbytes(into));
				}
			for (size_t k = 0; k < 2; k++)
				{
				reader.gets(into);
				after += into.size();
				}
			out.emit(vf::event("topics").raw("tags", vf::jbytes(w[2])).raw("text", vf::jbytes(text)).raw("classes", classes(text)).raw("got", vf::jlist(got)).num("after", after));
			}
		}
	return 0;
	}
