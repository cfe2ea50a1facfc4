// JSON emission shared by the drivers: doubles are written as [hi, lo] halves of their bit pattern.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>

struct Emit
{
	std::string s;
	std::FILE* f = nullptr;

	void Raw(const char* t) { s += t; }
	void Raw(const std::string& t) { s += t; }
	void Int(long long v) { s += std::to_string(v); }
	void Bool(bool v) { s += v ? "true" : "false"; }
	void Dbl(double v)
	{
		std::uint64_t b;
		std::memcpy(&b, &v, 8);
		char t[40];
		std::snprintf(t, sizeof t, "[%d,%d]", static_cast<std::int32_t>(b >> 32), static_cast<std::int32_t>(b & 0xffffffffu));
		s += t;
	}
	void Str(const std::string& v)
	{
		s += '"';
		for (char c : v)
		{
			if (c == '"' || c == '\\') { s += '\\'; s += c; }
			else if (static_cast<unsigned char>(c) < 32) { s += ' '; }
			else { s += c; }
		}
		s += '"';
	}
	template<typename V> void Vec(const V& v, std::size_t dim)
	{
		s += '[';
		for (std::size_t a = 0; a < dim; a++) { if (a) { s += ','; } Dbl(v[a]); }
		s += ']';
	}
	template<typename N, typename FN> void List(N n, FN fn)
	{
		s += '[';
		for (N i = 0; i < n; i++) { if (i) { s += ','; } fn(i); }
		s += ']';
	}
	void Line() { s += '\n';  }
	void Flush() { std::fwrite(s.data(), 1, s.size(), f); std::fflush(f); s.clear(); }
};
