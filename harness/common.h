// Shared by every harness: scenario reading (percent-encoded words) and ndjson event writing.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <sstream>

namespace vf
{
inline std::string unpct(const std::string &s)
	{
	std::string r;
	for (size_t i = 0; i < s.size(); i++)
		if (s[i] == '%' && i + 2 < s.size())
			{
			r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
			i += 2;
			}
		else
			r += s[i];
	return r;
	}

inline std::vector<std::string> words(const std::string &line)
	{
	std::vector<std::string> w;
	std::istringstream in(line);
	std::string x;
	while (in >> x)
		w.push_back(x);
	return w;
	}

class scenario
	{
	public:
		std::vector<std::vector<std::string>> lines;
		explicit scenario(const char *file)
			{
			std::ifstream in(file, std::ios::binary);
			std::string line;
			while (std::getline(in, line))
				{
				auto w = words(line);
				if (!w.empty() && w[0][0] != '#')
					lines.push_back(w);
				}
			}
	};

inline std::string jstr(const std::string &s)
	{
	std::string r = "\"";
	for (unsigned char c : s)
		if (c == '"' || c == '\\')
			{
			r += '\\';
			r += (char)c;
			}
		else if (c < 0x20 || c >= 0x7f)
			{
			char b[8];
			sprintf(b, "\\u%04x", c);
			r += b;
			}
		else
			r += (char)c;
	return r + "\"";
	}

// bytes as an array of numbers
inline std::string jbytes(const void *p, size_t n)
	{
	std::string r = "[";
	for (size_t i = 0; i < n; i++)
		{
		if (i)
			r += ',';
		r += std::to_string(((const uint8_t *)p)[i]);
		}
	return r + "]";
	}
inline std::string jbytes(const std::string &s) { return jbytes(s.data(), s.size()); }

template <typename T> std::string jnums(const T &v)
	{
	std::string r = "[";
	bool first = true;
	for (const auto &x : v)
		{
		if (!first)
			r += ',';
		first = false;
		r += std::to_string(x);
		}
	return r + "]";
	}

inline std::string jlist(const std::vector<std::string> &v)
	{
	std::string r = "[";
	for (size_t i = 0; i < v.size(); i++)
		r += (i ? "," : "") + v[i];
	return r + "]";
	}
inline std::string jstrs(const std::vector<std::string> &v)
	{
	std::vector<std::string> q;
	for (const auto &x : v)
		q.push_back(jstr(x));
	return jlist(q);
	}

class event
	{
	public:
		std::string text;
		explicit event(const std::string &name) { text = "{\"e\":" + jstr(name); }
		event &raw(const std::string &k, const std::string &v) { text += "," + jstr(k) + ":" + v; return *this; }
		event &str(const std::string &k, const std::string &v) { return raw(k, jstr(v)); }
		event &num(const std::string &k, long long v) { return raw(k, std::to_string(v)); }
		event &boolean(const std::string &k, bool v) { return raw(k, v ? "true" : "false"); }
	};

class trace
	{
	public:
		FILE *fp;
		explicit trace(const char *name) { fp = fopen(name, "wb"); }
		~trace() { fclose(fp); }
		void emit(const event &e)
			{
			fprintf(fp, "%s}\n", e.text.c_str());
			fflush(fp);
			}
	};
}
