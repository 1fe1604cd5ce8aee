#pragma once
// An independent reference codec, and adapters to the conversion functions and readers under test.
#include <mc.h>
#include <Strings/Conversion.h>
#include <vector>
#include <string>
using namespace vl;
using mc::Ctx;
using namespace vl::encoding;

typedef std::vector<uint32_t> Scalars;
typedef std::vector<uint32_t> Units; // code units, widened; big endian units in memory order

enum Enc { W, U8, U16, U16BE, U32 };
template<typename T> struct EncOf;
template<> struct EncOf<wchar_t> { static const Enc E = W; };
template<> struct EncOf<char8_t> { static const Enc E = U8; };
template<> struct EncOf<char16_t> { static const Enc E = U16; };
template<> struct EncOf<char16be_t> { static const Enc E = U16BE; };
template<> struct EncOf<char32_t> { static const Enc E = U32; };
inline const char* encName(Enc e) { static const char* n[] = { "wide", "UTF-8", "UTF-16", "UTF-16BE", "UTF-32" }; return n[e]; }

template<typename T> inline uint32_t unitValue(T t) { if constexpr (std::is_same_v<T, char16be_t>) return (uint16_t)t.value; else if constexpr (sizeof(T) == 1) return (uint8_t)t; else if constexpr (sizeof(T) == 2) return (uint16_t)t; else return (uint32_t)t; }
template<typename T> inline T makeUnit(uint32_t v) { if constexpr (std::is_same_v<T, char16be_t>) return char16be_t((char16_t)v); else return (T)v; }
inline uint32_t swap16(uint32_t v) { return ((v & 0xFF) << 8) | (v >> 8); }

inline void encodeOne(Enc e, uint32_t c, Units& out)
{
	switch (e)
	{
	case W: case U32: out.push_back(c); break;
	case U8:
	{
		int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
		static const uint32_t lead[] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
		out.push_back(lead[n] + (c >> (6 * (n - 1))));
		for (int k = n - 2; k >= 0; k--) out.push_back(0x80 + ((c >> (6 * k)) & 63));
		break;
	}
	case U16: if (c < 0x10000) out.push_back(c); else { uint32_t d = c - 0x10000; out.push_back(0xD800 + d / 1024); out.push_back(0xDC00 + d % 1024); } break;
	case U16BE: { Units t; encodeOne(U16, c, t); for (auto u : t) out.push_back(swap16(u)); break; }
	}
}
inline Units encode(Enc e, const Scalars& s) { Units r; for (auto c : s) encodeOne(e, c, r); return r; }
inline bool isScalar(uint32_t c) { return c <= 0x10FFFF && !(0xD800 <= c && c <= 0xDFFF); }

// longest well-formed prefix (strict), as scalars
inline Scalars validPrefix(Enc e, const Units& u)
{
	Scalars r; size_t i = 0;
	while (i < u.size())
	{
		uint32_t c; size_t n = 1;
		if (e == W || e == U32) c = u[i];
		else if (e == U16 || e == U16BE)
		{
			auto at = [&](size_t k) { return e == U16BE ? swap16(u[k]) : u[k]; };
			c = at(i);
			if (0xD800 <= c && c <= 0xDBFF) { if (i + 1 >= u.size() || at(i + 1) < 0xDC00 || at(i + 1) > 0xDFFF) break; c = 0x10000 + (c - 0xD800) * 1024 + (at(i + 1) - 0xDC00); n = 2; }
		}
		else
		{
			uint32_t b = u[i];
			n = b < 0x80 ? 1 : b < 0xC2 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF5 ? 4 : 0;
			if (n == 0 || i + n > u.size()) break;
			c = n == 1 ? b : b & (0x7F >> n);
			bool ok = true; for (size_t k = 1; k < n; k++) { if ((u[i + k] & 0xC0) != 0x80) ok = false; c = (c << 6) | (u[i + k] & 63); }
			static const uint32_t least[] = { 0, 0, 0x80, 0x800, 0x10000 };
			if (!ok || c < least[n]) break;
		}
		if (!isScalar(c)) break;
		r.push_back(c); i += n;
	}
	return r;
}

template<typename T> struct Buf // exactly sized zero terminated memory, so that over-reads are caught
{
	T* p; size_t n;
	Buf(const Units& u) { n = u.size(); p = new T[n + 1]; for (size_t i = 0; i < n; i++) p[i] = makeUnit<T>(u[i]); p[n] = makeUnit<T>(0); }
	~Buf() { delete[] p; }
};
inline std::string showUnits(const Units& u) { std::string s; for (auto x : u) { char b[16]; snprintf(b, sizeof b, "%X ", x); s += b; } return s; }
inline uint64_t hashUnits(const Units& u, uint64_t h = 11) { for (auto x : u) h = mc::mix(h, x); return mc::mix(h, u.size()); }
template<typename T> Units unitsOf(const ObjectString<T>& s) { Units u; for (vint i = 0; i < s.Length(); i++) u.push_back(unitValue<T>(s[i])); return u; }
template<typename T> ObjectString<T> stringOf(const Units& u) { std::vector<T> v; for (auto x : u) v.push_back(makeUnit<T>(x)); v.push_back(0); return ObjectString<T>::CopyFrom(v.data(), (vint)u.size()); }

template<typename TFrom, typename TTo> struct Direct { static const bool Exists = false; };
#define DIRECT(F, T) template<> struct Direct<F, T> { static const bool Exists = true; };
DIRECT(wchar_t, char8_t) DIRECT(wchar_t, char16_t) DIRECT(char8_t, wchar_t) DIRECT(char8_t, char16_t) DIRECT(char16_t, wchar_t) DIRECT(char16_t, char8_t)
DIRECT(char32_t, char8_t) DIRECT(char32_t, char16_t) DIRECT(char32_t, wchar_t) DIRECT(char8_t, char32_t) DIRECT(char16_t, char32_t) DIRECT(wchar_t, char32_t)
#undef DIRECT

template<typename F> void forAllDirect(F&& f)
{
	f.template operator()<wchar_t, char8_t>(); f.template operator()<wchar_t, char16_t>(); f.template operator()<wchar_t, char32_t>();
	f.template operator()<char8_t, wchar_t>(); f.template operator()<char8_t, char16_t>(); f.template operator()<char8_t, char32_t>();
	f.template operator()<char16_t, wchar_t>(); f.template operator()<char16_t, char8_t>(); f.template operator()<char16_t, char32_t>();
	f.template operator()<char32_t, wchar_t>(); f.template operator()<char32_t, char8_t>(); f.template operator()<char32_t, char16_t>();
}
template<typename F> void forAllReaders(F&& f)
{
	f.template operator()<wchar_t, wchar_t>(); f.template operator()<wchar_t, char8_t>(); f.template operator()<wchar_t, char16_t>(); f.template operator()<wchar_t, char16be_t>(); f.template operator()<wchar_t, char32_t>();
	f.template operator()<char8_t, wchar_t>(); f.template operator()<char8_t, char8_t>(); f.template operator()<char8_t, char16_t>(); f.template operator()<char8_t, char16be_t>(); f.template operator()<char8_t, char32_t>();
	f.template operator()<char16_t, wchar_t>(); f.template operator()<char16_t, char8_t>(); f.template operator()<char16_t, char16_t>(); f.template operator()<char16_t, char16be_t>(); f.template operator()<char16_t, char32_t>();
	f.template operator()<char16be_t, wchar_t>(); f.template operator()<char16be_t, char8_t>(); f.template operator()<char16be_t, char16_t>(); f.template operator()<char16be_t, char16be_t>(); f.template operator()<char16be_t, char32_t>();
	f.template operator()<char32_t, wchar_t>(); f.template operator()<char32_t, char8_t>(); f.template operator()<char32_t, char16_t>(); f.template operator()<char32_t, char16be_t>(); f.template operator()<char32_t, char32_t>();
}
static const uint32_t scalarClasses[] = { 0x01, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x10FFFF, 0x2F00, 0x100 };
