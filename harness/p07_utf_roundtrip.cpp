// P07: conversions between encodings are exact for every sequence of Unicode scalar values.
#include "utf.h"
#include <locale.h>

static void checkString(Ctx& c, const Scalars& s)
{
	auto w = stringOf<wchar_t>(encode(W, s)); auto u8 = stringOf<char8_t>(encode(U8, s)); auto u16 = stringOf<char16_t>(encode(U16, s)); auto u32 = stringOf<char32_t>(encode(U32, s));
#define SAME(F, X, Y) { auto r = F(X); if (!(r == Y)) mc::fail(#F " gives %s instead of %s", showUnits(unitsOf(r)).c_str(), showUnits(unitsOf(Y)).c_str()); }
	SAME(wtou32, w, u32) SAME(u32tow, u32, w) SAME(u8tou32, u8, u32) SAME(u32tou8, u32, u8) SAME(u16tou32, u16, u32) SAME(u32tou16, u32, u16)
	SAME(wtou8, w, u8) SAME(u8tow, u8, w) SAME(wtou16, w, u16) SAME(u16tow, u16, w) SAME(u8tou16, u8, u16) SAME(u16tou8, u16, u8)
	c.step(12);
}
static void checkBuffers(Ctx& c, const Scalars& s)
{
	forAllDirect([&]<typename TFrom, typename TTo>()
	{
		Buf<TFrom> src(encode(EncOf<TFrom>::E, s)); Units e = encode(EncOf<TTo>::E, s);
		vint n = _utftoutf<TFrom, TTo>(src.p, nullptr, 0);
		MC_CHECK(n == (vint)e.size() + 1, "%s to %s: required size %ld, expected %ld", encName(EncOf<TFrom>::E), encName(EncOf<TTo>::E), (long)n, (long)e.size() + 1);
		TTo* d = new TTo[n]; vint m = _utftoutf<TFrom, TTo>(src.p, d, n);
		bool ok = m == n && d[n - 1] == 0; for (size_t i = 0; i < e.size(); i++) ok = ok && unitValue<TTo>(d[i]) == e[i];
		delete[] d;
		MC_CHECK(ok, "%s to %s: wrong buffer content", encName(EncOf<TFrom>::E), encName(EncOf<TTo>::E));
		c.step(2);
	});
}
static void checkReaders(Ctx& c, const Scalars& s)
{
	forAllReaders([&]<typename TFrom, typename TTo>()
	{
		Buf<TFrom> src(encode(EncOf<TFrom>::E, s)); Units e = encode(EncOf<TTo>::E, s);
		UtfStringToStringReader<TFrom, TTo> r(src.p);
		UtfStringRangeToStringRangeReader<TFrom, TTo> q(src.p, (vint)src.n), q2(src.p, src.p + src.n);
		for (size_t i = 0; i < e.size(); i++)
		{
			auto a = unitValue<TTo>(r.Read()), b = unitValue<TTo>(q.Read()), d = unitValue<TTo>(q2.Read());
			MC_CHECK(a == e[i] && b == e[i] && d == e[i], "reader %s to %s: unit %zu is %X/%X/%X, expected %X", encName(EncOf<TFrom>::E), encName(EncOf<TTo>::E), i, a, b, d, e[i]);
		}
		MC_CHECK(!r.Read() && !q.Read() && !q2.Read() && !r.Read() && !q.Read(), "reader %s to %s: no end after %zu units", encName(EncOf<TFrom>::E), encName(EncOf<TTo>::E), e.size());
		c.step(3);
	});
}
template<typename T> static void checkOne(Ctx& c, uint32_t v)
{
	Units e; encodeOne(EncOf<T>::E, v, e);
	T d[UtfConversion<T>::BufferLength]; vint n = UtfConversion<T>::From32((char32_t)v, d);
	MC_CHECK(n == (vint)e.size(), "%s: U+%X encodes to %ld units, expected %zu", encName(EncOf<T>::E), v, (long)n, e.size());
	for (vint i = 0; i < n; i++) MC_CHECK(unitValue<T>(d[i]) == e[i], "%s: U+%X unit %ld", encName(EncOf<T>::E), v, (long)i);
	char32_t back = 0; vint k = UtfConversion<T>::To32(d, n, back);
	MC_CHECK(k == n && (uint32_t)back == v, "%s: U+%X decodes to U+%X using %ld units", encName(EncOf<T>::E), v, (unsigned)back, (long)k);
	c.step(2);
}

// every scalar value there is, in every encoding and conversion function
MC_SCENARIO(every_scalar, 64, 1)
{
	uint32_t base = (uint32_t)c.choose(0x440) * 0x400; c.log("scalars %X..%X", base, base + 0x3FF);
	for (uint32_t v = base; v < base + 0x400; v++)
	{
		if (!isScalar(v)) continue;
		checkOne<wchar_t>(c, v); checkOne<char8_t>(c, v); checkOne<char16_t>(c, v); checkOne<char16be_t>(c, v);
		if (v == 0) continue;
		Scalars s = { v }; checkString(c, s); c.state(v);
		if ((v & 15) == 0 || c.thorough || v < 0x1000 || (v & 0x3FF) == 0x3FF) { Scalars t = { 0x41, v, 0x42, v }; checkString(c, t); checkReaders(c, t); checkBuffers(c, t); }
	}
}
// every non-scalar is refused by the encoders that promise well-formed output
MC_SCENARIO(surrogates_refused, 4, 1)
{
	uint32_t base = 0xD800 + (uint32_t)c.choose(8) * 256; c.log("surrogates %X..", base);
	for (uint32_t v = base; v < base + 256; v++)
	{
		char8_t a[6]; char16_t b[2]; char16be_t d[2]; c.state(v);
		MC_CHECK(UtfConversion<char8_t>::From32(v, a) == -1 && UtfConversion<char16_t>::From32(v, b) == -1 && UtfConversion<char16be_t>::From32(v, d) == -1, "surrogate U+%X is encoded", v);
		Units u; encodeOne(U8, v, u); char8_t e[6] = {}; for (size_t i = 0; i < u.size(); i++) e[i] = (char8_t)u[i]; char32_t r;
		MC_CHECK(UtfConversion<char8_t>::To32(e, (vint)u.size(), r) == -1, "an encoded surrogate U+%X is decoded", v);
		c.step(4);
	}
	for (uint32_t v : { 0x110000u, 0x1FFFFFu, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu }) { char16_t b[2]; char16be_t d[2]; MC_CHECK(UtfConversion<char16_t>::From32(v, b) == -1 && UtfConversion<char16be_t>::From32(v, d) == -1, "U+%X is encoded in UTF-16", v); c.step(2); }
	for (uint32_t v : { 0x80000000u, 0xFFFFFFFFu, 0xC0000000u }) { char8_t a[6]; MC_CHECK(UtfConversion<char8_t>::From32(v, a) == -1, "U+%X is encoded in UTF-8", v); c.step(); }
}
// the documented extension of UTF-8 to 31 bits
MC_SCENARIO(utf8_31_bits, 64, 1)
{
	if (c.thorough)
	{
		uint32_t base = (uint32_t)c.choose(0x8000) << 16; c.log("%X..", base);
		for (uint32_t k = 0; k < 0x10000; k++) { uint32_t v = base + k; if (v >= 0xD800 && v <= 0xDFFF) continue; checkOne<char8_t>(c, v); }
		c.state(base);
	}
	else
	{
		static const uint32_t g[] = { 0, 1, 0x15, 0x20, 0x2A, 0x3F };
		uint32_t v = c.choose(2); for (int i = 0; i < 2; i++) v = v * 64 + g[c.choose(6)];
		for (auto a : g) for (auto b : g) for (auto d : g) { uint32_t x = ((v * 64 + a) * 64 + b) * 64 + d; if (x >= 0xD800 && x <= 0xDFFF) continue; checkOne<char8_t>(c, x); c.state(x); }
		c.log("%X...", v);
	}
}
// all sequences over representatives of every length class and boundary
MC_SCENARIO(sequences, 32, 2)
{
	int n = c.choose(c.bound(4, 5)); Scalars s; int K = sizeof scalarClasses / sizeof *scalarClasses;
	for (int i = 0; i < n; i++) s.push_back(scalarClasses[c.choose(K)]);
	c.log("%s", showUnits(s).c_str()); c.state(hashUnits(s));
	checkString(c, s); checkReaders(c, s); checkBuffers(c, s);
}
// long texts: every length up to a bound and every phase of the class pattern
MC_SCENARIO(lengths, 16, 1)
{
	int n = c.choose(c.bound(300, 2000)), phase = c.choose(4); Scalars s; int K = sizeof scalarClasses / sizeof *scalarClasses;
	for (int i = 0; i < n; i++) s.push_back(scalarClasses[(i * (phase + 1) + phase) % K]);
	c.log("length %d phase %d", n, phase); c.state(n * 4 + phase); checkString(c, s); if (n < 40) { checkReaders(c, s); checkBuffers(c, s); }
}
// substrings as sources: the conversion sees exactly the substring
MC_SCENARIO(substring_sources, 8, 2)
{
	int i = c.choose(5), n = c.choose(5 - i + 1); Scalars all = { 0x41, 0x7FF, 0xFFFF, 0x10FFFF, 0x80 };
	Scalars s(all.begin() + i, all.begin() + i + n); c.log("part %d+%d", i, n); c.state(i * 10 + n);
	auto at = [&](Enc e, int k) { return (vint)encode(e, Scalars(all.begin(), all.begin() + k)).size(); };
	auto w = stringOf<wchar_t>(encode(W, all)).Sub(at(W, i), at(W, i + n) - at(W, i)); auto u8 = stringOf<char8_t>(encode(U8, all)).Sub(at(U8, i), at(U8, i + n) - at(U8, i));
	auto u16 = stringOf<char16_t>(encode(U16, all)).Sub(at(U16, i), at(U16, i + n) - at(U16, i)); auto u32 = stringOf<char32_t>(encode(U32, all)).Sub(at(U32, i), at(U32, i + n) - at(U32, i));
	SAME(wtou32, w, u32) SAME(u32tow, u32, w) SAME(u8tou32, u8, u32) SAME(u32tou8, u32, u8) SAME(u16tou32, u16, u32) SAME(u32tou16, u32, u16)
	SAME(wtou8, w, u8) SAME(u8tow, u8, w) SAME(wtou16, w, u16) SAME(u16tow, u16, w) SAME(u8tou16, u8, u16) SAME(u16tou8, u16, u8)
	auto r = wtou32(w); MC_CHECK(r.Buffer()[r.Length()] == 0 && u32tow(u32).Buffer()[w.Length()] == 0, "terminator"); c.step(12);
}
// the local code page, where it can represent everything (a UTF-8 locale)
MC_SCENARIO(local_code_page, 16, 1)
{
	static bool have = setlocale(LC_ALL, "C.UTF-8") != nullptr; uint32_t base = (uint32_t)c.choose(0x440) * 0x400; if (!have) return;
	c.log("scalars %X..", base);
	for (uint32_t v = base ? base : 1; v < base + 0x400; v++)
	{
		if (!isScalar(v)) continue; Scalars s = { v, 0x41, v };
		auto w = stringOf<wchar_t>(encode(W, s)); Units e = encode(U8, s); auto a = wtoa(w);
		MC_CHECK(unitsOf(a) == e, "wtoa of U+%X", v); MC_CHECK(atow(a) == w, "atow of U+%X", v); c.state(v); c.step(2);
		if ((v & 63) == 0) { MC_CHECK(unitsOf(atou8(a)) == e && atou16(a) == stringOf<char16_t>(encode(U16, s)) && atou32(a) == stringOf<char32_t>(encode(U32, s)) && u8toa(atou8(a)) == a && u16toa(atou16(a)) == a && u32toa(atou32(a)) == a, "narrow conversions of U+%X", v); c.step(6); }
	}
}
MC_SCENARIO(local_code_page_ascii, 1, 1)
{
	int n = c.choose(200); std::string t; for (int i = 0; i < n; i++) t += (char)(1 + i % 127); AString a = t.c_str(); auto w = atow(a); c.log("%d ASCII characters", n); c.state(n);
	MC_CHECK(w.Length() == n, "atow length"); for (int i = 0; i < n; i++) MC_CHECK(w[i] == (wchar_t)t[i], "atow"); MC_CHECK(wtoa(w) == a, "wtoa"); c.step(2);
}
// long texts of one class or of two alternating classes: buffer sizes estimated from the length show here
MC_SCENARIO(large, 64, 2)
{
	int K = sizeof scalarClasses / sizeof *scalarClasses; int a = c.choose(K), b = c.pick({ 0, K / 2, K - 1, -1 }); int n = mc::bigSize(c, 30, c.bound(2100, 70000)); Scalars s;
	for (int i = 0; i < n; i++) s.push_back(scalarClasses[b >= 0 && i % 2 ? b : a]); c.log("%d scalars of class %d and %d", n, a, b); c.state(hashUnits({ (uint32_t)n, (uint32_t)a, (uint32_t)b }));
	checkString(c, s); if (n < c.bound(300, 5000)) { checkReaders(c, s); checkBuffers(c, s); }
}
// one character of another class at every place of a text of one class
MC_SCENARIO(one_different, 64, 2)
{
	static const uint32_t cl[] = { 0x41, 0x7FF, 0xD7FF, 0xFFFF, 0x10000, 0x10FFFF }; int a = c.choose(6), b = c.choose(6), n = 1 + c.choose(c.bound(40, 140)); if (a == b) return;
	c.log("%d scalars %X, one of them %X", n, cl[a], cl[b]); c.state(hashUnits({ (uint32_t)n, cl[a], cl[b] }));
	for (int i = 0; i < n; i++) { Scalars s(n, cl[a]); s[i] = cl[b]; checkString(c, s); if (n < 20) { checkReaders(c, s); checkBuffers(c, s); } }
}
