// P08: conversion of arbitrary, possibly malformed input.
#include "utf.h"

template<typename TFrom, typename TTo> static void one(Ctx& c, const Units& u, const Scalars& good, bool strict)
{
	Enc F = EncOf<TFrom>::E, T = EncOf<TTo>::E;
	Buf<TFrom> src(u); Units prefix = encode(T, good);
	vint n = _utftoutf<TFrom, TTo>(src.p, nullptr, 0);
	MC_CHECK(n >= 1, "%s to %s: required size %ld", encName(F), encName(T), (long)n);
	MC_CHECK(n <= (vint)u.size() * 6 + 1, "%s to %s: required size %ld for %zu units", encName(F), encName(T), (long)n, u.size());
	TTo* full = new TTo[n]; vint m = _utftoutf<TFrom, TTo>(src.p, full, n);
	Units out; for (vint i = 0; i + 1 < n; i++) out.push_back(unitValue<TTo>(full[i]));
	bool zero = full[n - 1] == 0; delete[] full;
	MC_CHECK(m == n && zero, "%s to %s: size query says %ld, conversion wrote %ld", encName(F), encName(T), (long)n, (long)m);
	for (auto x : out) MC_CHECK(x != 0, "%s to %s: a zero inside the output", encName(F), encName(T));
	c.step(2);
	for (vint k = 0; k < n; k++) // too small buffers are filled, never overrun
	{
		TTo* part = new TTo[k ? k : 1]; vint w = _utftoutf<TFrom, TTo>(src.p, part, k);
		bool ok = w == k; for (vint i = 0; i < k && ok; i++) ok = unitValue<TTo>(part[i]) == out[i]; delete[] part;
		MC_CHECK(ok, "%s to %s: a buffer of %ld units is not filled with the first %ld units", encName(F), encName(T), (long)k, (long)k);
		c.step();
	}
	MC_CHECK(out.size() >= prefix.size() && std::equal(prefix.begin(), prefix.end(), out.begin()), "%s to %s: the well-formed beginning is not converted exactly", encName(F), encName(T));
	if (strict) MC_CHECK(out.size() == prefix.size(), "%s to %s: something is produced for a malformed unit", encName(F), encName(T));
	// the output itself never contains surrogates, and UTF-16 output is well formed
	if (T == U16) MC_CHECK(encode(U16, validPrefix(U16, out)).size() == out.size(), "%s to UTF-16: malformed output %s", encName(F), showUnits(out).c_str());
	if ((T == U32 || T == W) && (F == U8 || F == U16)) for (auto x : out) MC_CHECK(!(0xD800 <= x && x <= 0xDFFF), "%s to %s: a surrogate is produced", encName(F), encName(T));
	if (T == U8) for (size_t i = 0; i + 1 < out.size(); i++) MC_CHECK(!(out[i] == 0xED && out[i + 1] >= 0xA0), "%s to UTF-8: an encoded surrogate is produced", encName(F));
	// reader: same output, stays at the end
	UtfStringToStringReader<TFrom, TTo> r(src.p); UtfStringRangeToStringRangeReader<TFrom, TTo> q(src.p, (vint)src.n);
	for (auto x : out) { auto a = unitValue<TTo>(r.Read()), b = unitValue<TTo>(q.Read()); MC_CHECK(a == x && b == x, "%s to %s: readers and conversion disagree", encName(F), encName(T)); }
	MC_CHECK(!r.Read() && !q.Read(), "%s to %s: a reader continues after the end", encName(F), encName(T));
	c.step(2);
}
// reader-only pairs
template<typename TFrom, typename TTo> static void readOnly(Ctx& c, const Units& u, const Scalars& good)
{
	Enc F = EncOf<TFrom>::E, T = EncOf<TTo>::E; Buf<TFrom> src(u); Units prefix = encode(T, good), out;
	UtfStringToStringReader<TFrom, TTo> r(src.p);
	for (;;) { auto x = unitValue<TTo>(r.Read()); if (!x) break; out.push_back(x); MC_CHECK(out.size() <= u.size() * 6, "%s to %s: a reader does not end", encName(F), encName(T)); }
	MC_CHECK(out.size() >= prefix.size() && std::equal(prefix.begin(), prefix.end(), out.begin()), "%s to %s: reader: the well-formed beginning is not converted exactly", encName(F), encName(T));
	if (T == U16BE || T == U16) MC_CHECK(encode(T, validPrefix(T, out)).size() == out.size(), "%s to %s: reader: malformed output", encName(F), encName(T));
	c.step();
}
template<typename S> static void viaStrings(Ctx& c, const Units& u, const Scalars& good)
{
	auto s = stringOf<S>(u); auto chk = [&](auto&& r, Enc e, const char* f) { Units p = encode(e, good), o = unitsOf(r); MC_CHECK(o.size() >= p.size() && std::equal(p.begin(), p.end(), o.begin()), "%s: the well-formed beginning is not converted exactly", f); MC_CHECK(r.Buffer()[r.Length()] == 0, "%s: terminator", f); c.step(); };
	if constexpr (std::is_same_v<S, char8_t>) { chk(u8tou32(s), U32, "u8tou32"); chk(u8tow(s), W, "u8tow"); chk(u8tou16(s), U16, "u8tou16"); }
	if constexpr (std::is_same_v<S, char16_t>) { chk(u16tou32(s), U32, "u16tou32"); chk(u16tow(s), W, "u16tow"); chk(u16tou8(s), U8, "u16tou8"); }
	if constexpr (std::is_same_v<S, char32_t>) { chk(u32tou8(s), U8, "u32tou8"); chk(u32tow(s), W, "u32tow"); chk(u32tou16(s), U16, "u32tou16"); }
	if constexpr (std::is_same_v<S, wchar_t>) { chk(wtou8(s), U8, "wtou8"); chk(wtou32(s), U32, "wtou32"); chk(wtou16(s), U16, "wtou16"); }
}
static void from8(Ctx& c, const Units& u) { auto g = validPrefix(U8, u); c.state(hashUnits(u, 8)); one<char8_t, wchar_t>(c, u, g, false); one<char8_t, char16_t>(c, u, g, false); one<char8_t, char32_t>(c, u, g, false); readOnly<char8_t, char8_t>(c, u, g); readOnly<char8_t, char16be_t>(c, u, g); viaStrings<char8_t>(c, u, g); }
static void from16(Ctx& c, const Units& u) { auto g = validPrefix(U16, u); c.state(hashUnits(u, 16)); one<char16_t, wchar_t>(c, u, g, true); one<char16_t, char8_t>(c, u, g, true); one<char16_t, char32_t>(c, u, g, true); readOnly<char16_t, char16_t>(c, u, g); readOnly<char16_t, char16be_t>(c, u, g);
	Units be; for (auto x : u) be.push_back(swap16(x)); readOnly<char16be_t, char8_t>(c, be, g); readOnly<char16be_t, char16_t>(c, be, g); readOnly<char16be_t, wchar_t>(c, be, g); readOnly<char16be_t, char32_t>(c, be, g); viaStrings<char16_t>(c, u, g); }
template<typename S> static void from32(Ctx& c, const Units& u)
{
	auto g = validPrefix(U32, u); c.state(hashUnits(u, 32 + sizeof(S) + std::is_same_v<S, wchar_t>)); bool ext = false; for (auto x : u) if (x > 0x10FFFF) ext = true;
	one<S, char16_t>(c, u, g, true); one<S, char8_t>(c, u, g, !ext); readOnly<S, char16be_t>(c, u, g);
	viaStrings<S>(c, u, g);
}
static const uint32_t bytes[] = { 0x41, 0x7F, 0x80, 0x8F, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF };
static const uint32_t words[] = { 0x41, 0x80, 0x7FF, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF };
static const uint32_t wides[] = { 0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF };
template<int N> static Units pickUnits(Ctx& c, const uint32_t(&a)[N], int n) { Units u; for (int i = 0; i < n; i++) u.push_back(a[c.choose(N)]); return u; }

MC_SCENARIO(utf8_class_sequences, 64, 3) { auto u = pickUnits(c, bytes, c.choose(c.bound(4, 5))); c.log("%s", showUnits(u).c_str()); from8(c, u); }
MC_SCENARIO(utf8_all_pairs, 64, 1) { uint32_t a = 1 + c.choose(255); c.log("%X *", a); from8(c, { a }); for (uint32_t b = 1; b < 256; b++) { from8(c, { a, b }); if (b < 0x41 || b > 0x7F) from8(c, { 0x41, a, b }); } }
MC_SCENARIO(utf8_all_triples, 64, 2) { uint32_t a = 0x80 + c.choose(128), b = 0x70 + 9 * c.choose(16); c.log("%X %X *", a, b); for (uint32_t d = 1; d < 256; d += c.thorough ? 1 : 3) from8(c, { a, b, d }); }
// every truncation of every long form, followed by every class
MC_SCENARIO(utf8_truncated, 16, 2)
{
	static const uint32_t v[] = { 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, 0xD800, 0xDFFF };
	Units u; encodeOne(U8, v[c.choose(14)], u); int cut = 1 + c.choose((int)u.size()); u.resize(cut); int pre = c.choose(7); u.insert(u.begin(), pre, 0x42); auto t = pickUnits(c, bytes, c.choose(3)); u.insert(u.end(), t.begin(), t.end());
	c.log("%s", showUnits(u).c_str()); from8(c, u);
}
// every surrogate, and the limits of every form, written with every number of bytes, also more than necessary
static Units form8(uint32_t v, int n) { Units u; if (n == 1) { u.push_back(v); return u; } for (int i = n - 1; i > 0; i--) { u.insert(u.begin(), 0x80 | (v & 0x3F)); v >>= 6; } u.insert(u.begin(), (0xFF00 >> n & 0xFF) | v); return u; }
MC_SCENARIO(utf8_overlong, 32, 2)
{
	static const uint32_t room[] = { 0, 0, 0x800, 0x10000, 0x200000, 0x4000000, 0x80000000 }, limits[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFE, 0xFFFF, 0x10000, 0x1D800, 0x1DFFF, 0x10D800, 0x10FFFF, 0x110000, 0x11D800, 0x20D800, 0x3FFFFFF, 0x400D800, 0x7FFFFFFF };
	int n = 2 + c.choose(5), block = c.choose(33); c.log("%d bytes, block %d", n, block); c.state(n * 64 + block);
	for (int k = 0; k < (block < 32 ? 64 : 20); k++)
	{
		uint32_t v = block < 32 ? 0xD800 + block * 64 + k : limits[k]; if (v >= room[n]) continue; Units u = form8(v, n); from8(c, u); u.insert(u.begin(), 0x41); from8(c, u); u.push_back(0x42); from8(c, u); u.push_back(0xC3); u.push_back(0xA9); from8(c, u);
		auto w = form8(v, n); char8_t e[6] = {}; for (int i = 0; i < n; i++) e[i] = (char8_t)w[i]; char32_t r = 0; vint took = UtfConversion<char8_t>::To32(e, n, r); bool sur = 0xD800 <= v && v <= 0xDFFF; MC_CHECK(took == -1 || (!sur && took >= 1 && took <= n), "UTF-8 decoder took %ld of %d units of U+%X", (long)took, n, v); c.step();
	}
}
MC_SCENARIO(utf16_class_sequences, 64, 3) { auto u = pickUnits(c, words, c.choose(c.bound(5, 6))); c.log("%s", showUnits(u).c_str()); from16(c, u); }
MC_SCENARIO(utf16_all_units, 32, 1) { uint32_t a = (uint32_t)c.choose(256) << 8; c.log("%X..", a); for (uint32_t k = a ? 0 : 1; k < 256; k++) { from16(c, { a + k }); from16(c, { 0x41, a + k, 0x42 }); from16(c, { 0xD801, a + k }); from16(c, { a + k, 0xDC01, 0x43 }); } }
MC_SCENARIO(utf32_class_sequences, 32, 2) { auto u = pickUnits(c, wides, c.choose(c.bound(4, 5))); c.log("%s", showUnits(u).c_str()); from32<char32_t>(c, u); from32<wchar_t>(c, u); }
// the single-character decoders with every declared length
MC_SCENARIO(decoders_bounded, 16, 2)
{
	uint32_t a = c.choose(256); int len = c.choose(8) - 1; c.log("lead %X, %d units available", a, len); c.state(a * 16 + len + 1);
	int n = len < 0 ? 0 : len; char8_t* p = new char8_t[n ? n : 1]; for (int i = 0; i < n; i++) p[i] = (char8_t)(i ? 0x80 + i : a);
	char32_t d = 0; vint r = UtfConversion<char8_t>::To32(n ? p : p + 1, len, d); delete[] p;
	MC_CHECK(r == -1 || (r >= 1 && r <= len), "UTF-8 decoder consumed %ld of %d units", (long)r, len); c.step();
	wchar_t* x = new wchar_t[n ? n : 1]; for (int i = 0; i < n; i++) x[i] = (wchar_t)(i ? i : 0x4E00 + a); d = 0; r = UtfConversion<wchar_t>::To32(n ? x : x + 1, len, d); delete[] x;
	MC_CHECK(r == (len <= 0 ? -1 : 1) && (len <= 0 || d == 0x4E00 + a), "wchar_t decoder consumed %ld of %d units", (long)r, len); c.step();
	for (uint32_t w : { 0x41u, 0xD800u + a, 0xDC00u + a, 0xD7FFu }) { char16_t* q = new char16_t[n ? n : 1]; for (int i = 0; i < n; i++) q[i] = (char16_t)(i ? 0xDC00 + i : w); r = UtfConversion<char16_t>::To32(n ? q : q + 1, len, d); delete[] q;
		vint e = len <= 0 ? -1 : w >= 0xDC00 ? -1 : w >= 0xD800 ? (len >= 2 ? 2 : -1) : 1; MC_CHECK(r == e, "UTF-16 decoder consumed %ld of %d units, expected %ld", (long)r, len, (long)e); c.step();
		char16be_t* z = new char16be_t[n ? n : 1]; for (int i = 0; i < n; i++) z[i] = char16be_t((char16_t)swap16(i ? 0xDC00 + i : w)); r = UtfConversion<char16be_t>::To32(n ? z : z + 1, len, d); delete[] z; MC_CHECK(r == e, "UTF-16BE decoder consumed %ld of %d units, expected %ld", (long)r, len, (long)e); c.step(); }
}
// malformed units at the beginning, in the middle and at the end of long texts, and long runs of them
template<typename TFrom, typename TTo> static void longOne(Ctx& c, const Units& u, const Scalars& good)
{
	Enc F = EncOf<TFrom>::E, T = EncOf<TTo>::E; Buf<TFrom> src(u); Units prefix = encode(T, good); vint n = _utftoutf<TFrom, TTo>(src.p, nullptr, 0);
	MC_CHECK(n >= 1 && n <= (vint)u.size() * 6 + 1, "%s to %s: required size %ld for %zu units", encName(F), encName(T), (long)n, u.size());
	TTo* full = new TTo[n]; vint m = _utftoutf<TFrom, TTo>(src.p, full, n); Units out; for (vint i = 0; i + 1 < n; i++) out.push_back(unitValue<TTo>(full[i])); bool zero = full[n - 1] == 0; delete[] full;
	MC_CHECK(m == n && zero, "%s to %s: size query says %ld, conversion wrote %ld", encName(F), encName(T), (long)n, (long)m);
	MC_CHECK(out.size() >= prefix.size() && std::equal(prefix.begin(), prefix.end(), out.begin()), "%s to %s: the well-formed beginning is not converted exactly", encName(F), encName(T));
	for (vint k : { (vint)0, (vint)1, n / 2, n - 2, n - 1 }) if (k >= 0 && k < n) { TTo* part = new TTo[k ? k : 1]; vint w = _utftoutf<TFrom, TTo>(src.p, part, k); bool ok = w == k; for (vint i = 0; i < k && ok; i++) ok = unitValue<TTo>(part[i]) == out[i]; delete[] part; MC_CHECK(ok, "%s to %s: a buffer of %ld units is not filled with the first %ld units", encName(F), encName(T), (long)k, (long)k); }
	if (T == U16) MC_CHECK(encode(U16, validPrefix(U16, out)).size() == out.size(), "%s to UTF-16: malformed output", encName(F));
	UtfStringToStringReader<TFrom, TTo> r(src.p); for (auto x : out) MC_CHECK(unitValue<TTo>(r.Read()) == x, "%s to %s: reader and conversion disagree", encName(F), encName(T)); MC_CHECK(!r.Read(), "%s to %s: a reader continues after the end", encName(F), encName(T)); c.step(4);
}
MC_SCENARIO(long_texts, 32, 2)
{
	int n = mc::bigSize(c, 8, c.bound(600, 20000)), where = c.choose(4), kind = c.choose(7); c.log("%d characters, malformed units of kind %d at place %d", n, kind, where); c.state(n * 64 + where * 8 + kind);
	static const uint32_t cl[] = { 0x41, 0x7FF, 0xFFFF, 0x10FFFF }; Scalars s; for (int i = 0; i < n; i++) s.push_back(cl[(i * 3) % 4]);
	auto mix = [&](Enc e, Units bad) { int at = where == 0 ? 0 : where == 1 ? n / 2 : n; Units u = encode(e, Scalars(s.begin(), s.begin() + at)); int times = where == 3 ? n : 1; if (where == 3) u.clear(); for (int i = 0; i < times; i++) u.insert(u.end(), bad.begin(), bad.end()); if (where < 2) { Units t = encode(e, Scalars(s.begin() + at, s.end())); u.insert(u.end(), t.begin(), t.end()); } return u; };
	static const Units b8[] = { {0xC2}, {0x80}, {0xF1, 0x80, 0x80}, {0xED, 0xA0, 0x80}, {0xFF}, {0xFC, 0x80}, {0xE1} }, b16[] = { {0xD800}, {0xDC00}, {0xD800, 0x41}, {0xDC00, 0xD800}, {0xDBFF, 0xDBFF}, {0xDFFF}, {0xD800, 0xE000} }, b32[] = { {0xD800}, {0xDFFF}, {0x110000}, {0x80000000}, {0xFFFFFFFF}, {0xDC00, 0x41}, {0x7FFFFFFF} };
	{ auto u = mix(U8, b8[kind]); auto g = validPrefix(U8, u); longOne<char8_t, wchar_t>(c, u, g); longOne<char8_t, char16_t>(c, u, g); longOne<char8_t, char32_t>(c, u, g); viaStrings<char8_t>(c, u, g); }
	{ auto u = mix(U16, b16[kind]); auto g = validPrefix(U16, u); longOne<char16_t, wchar_t>(c, u, g); longOne<char16_t, char8_t>(c, u, g); longOne<char16_t, char32_t>(c, u, g); viaStrings<char16_t>(c, u, g); }
	{ auto u = mix(U32, b32[kind]); auto g = validPrefix(U32, u); longOne<char32_t, char16_t>(c, u, g); longOne<char32_t, char8_t>(c, u, g); longOne<wchar_t, char16_t>(c, u, g); longOne<wchar_t, char8_t>(c, u, g); viaStrings<char32_t>(c, u, g); viaStrings<wchar_t>(c, u, g); }
}
