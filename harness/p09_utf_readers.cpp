// P09: a converting reader reports, for every unit it returns, the unit's position in the output and the exact
// range of source units it came from.
#include "utf.h"

template<typename TFrom, typename TTo, typename R> static void follow(Ctx& c, R& r, const Scalars& s, const char* kind)
{
	Enc F = EncOf<TFrom>::E, T = EncOf<TTo>::E;
	MC_CHECK(r.ReadingIndex() == -1 && r.SourceCluster().index == 0 && r.SourceCluster().size == 0, "%s %s to %s: positions before reading", kind, encName(F), encName(T));
	vint out = 0, src = 0;
	for (auto v : s)
	{
		Units f, t; encodeOne(F, v, f); encodeOne(T, v, t);
		for (auto e : t)
		{
			auto x = unitValue<TTo>(r.Read());
			MC_CHECK(x == e, "%s %s to %s: unit %ld", kind, encName(F), encName(T), (long)out);
			MC_CHECK(r.ReadingIndex() == out, "%s %s to %s: reading index %ld, expected %ld", kind, encName(F), encName(T), (long)r.ReadingIndex(), (long)out);
			auto k = r.SourceCluster();
			MC_CHECK(k.index == src && k.size == (vint)f.size(), "%s %s to %s: unit %ld comes from source [%ld,+%ld), expected [%ld,+%zu)", kind, encName(F), encName(T), (long)out, (long)k.index, (long)k.size, (long)src, f.size());
			out++; c.step();
		}
		src += (vint)f.size();
	}
	for (int i = 0; i < 3; i++)
	{
		MC_CHECK(!r.Read(), "%s %s to %s: no end", kind, encName(F), encName(T));
		MC_CHECK(r.ReadingIndex() == out && r.SourceCluster().index == src && r.SourceCluster().size == 0, "%s %s to %s: positions at the end: %ld [%ld,+%ld), expected %ld [%ld,+0)", kind, encName(F), encName(T), (long)r.ReadingIndex(), (long)r.SourceCluster().index, (long)r.SourceCluster().size, (long)out, (long)src);
		c.step();
	}
}
static void all(Ctx& c, const Scalars& s)
{
	forAllReaders([&]<typename TFrom, typename TTo>()
	{
		Buf<TFrom> b(encode(EncOf<TFrom>::E, s));
		UtfStringToStringReader<TFrom, TTo> r(b.p); follow<TFrom, TTo>(c, r, s, "string reader");
		UtfStringRangeToStringRangeReader<TFrom, TTo> q(b.p, (vint)b.n); follow<TFrom, TTo>(c, q, s, "range reader");
		UtfStringRangeToStringRangeReader<TFrom, TTo> q2(b.p, b.p + b.n); follow<TFrom, TTo>(c, q2, s, "range reader");
		// a range that ends where its memory ends, and one in the middle of other text
		TFrom* exact = (TFrom*)malloc(b.n * sizeof(TFrom)); for (size_t i = 0; i < b.n; i++) exact[i] = b.p[i];
		{ UtfStringRangeToStringRangeReader<TFrom, TTo> q3(exact, (vint)b.n); follow<TFrom, TTo>(c, q3, s, "exact range reader"); }
		{ UtfStringRangeToStringRangeReader<TFrom, TTo> q3(exact, exact + b.n); follow<TFrom, TTo>(c, q3, s, "exact range reader"); }
		free(exact);
		Buf<TFrom> around(encode(EncOf<TFrom>::E, [&] { Scalars t{ 0x10FFFF }; t.insert(t.end(), s.begin(), s.end()); t.push_back(0x10FFFF); return t; }())); size_t at = encode(EncOf<TFrom>::E, { 0x10FFFF }).size();
		UtfStringRangeToStringRangeReader<TFrom, TTo> q4(around.p + at, (vint)b.n); follow<TFrom, TTo>(c, q4, s, "inner range reader");
	});
}
// after malformed input: what was reported up to there is exact, and the reader stays ended without moving
template<typename TFrom, typename TTo> static void stopped(Ctx& c, const Scalars& good, const Units& bad)
{
	Enc F = EncOf<TFrom>::E, T = EncOf<TTo>::E; Units u = encode(F, good); u.insert(u.end(), bad.begin(), bad.end()); Buf<TFrom> b(u);
	UtfStringToStringReader<TFrom, TTo> r(b.p); vint out = 0, src = 0;
	for (auto v : good)
	{
		Units f, t; encodeOne(F, v, f); encodeOne(T, v, t);
		for (auto e : t) { auto x = unitValue<TTo>(r.Read()); auto k = r.SourceCluster(); MC_CHECK(x == e && r.ReadingIndex() == out && k.index == src && k.size == (vint)f.size(), "%s to %s before malformed input: unit %ld", encName(F), encName(T), (long)out); out++; c.step(); }
		src += (vint)f.size();
	}
	MC_CHECK(!r.Read(), "%s to %s: malformed input is not an end", encName(F), encName(T)); auto i = r.ReadingIndex(); auto k = r.SourceCluster();
	for (int n = 0; n < 3; n++) { MC_CHECK(!r.Read() && r.ReadingIndex() == i && r.SourceCluster().index == k.index && r.SourceCluster().size == k.size, "%s to %s: an ended reader moves", encName(F), encName(T)); c.step(); }
	MC_CHECK(k.index + k.size <= (vint)u.size(), "%s to %s: cluster beyond the source", encName(F), encName(T));
}
MC_SCENARIO(sequences, 32, 2)
{
	int n = c.choose(c.bound(4, 5)); Scalars s; int K = sizeof scalarClasses / sizeof *scalarClasses;
	for (int i = 0; i < n; i++) s.push_back(scalarClasses[c.choose(K)]);
	c.log("%s", showUnits(s).c_str()); c.state(hashUnits(s)); all(c, s);
}
MC_SCENARIO(every_scalar, 64, 1)
{
	uint32_t base = (uint32_t)c.choose(0x440) * 0x400; c.log("scalars %X..", base);
	for (uint32_t v = base ? base : 1; v < base + 0x400; v += c.thorough ? 1 : 7) if (isScalar(v)) { all(c, { v, 0x41, v }); c.state(v); }
}
// UTF-8 sequences of five and six bytes, which the library reads and writes as well
template<typename TFrom, typename TTo> static void beyond(Ctx& c, const Scalars& s)
{
	Buf<TFrom> b(encode(EncOf<TFrom>::E, s)); UtfStringToStringReader<TFrom, TTo> r(b.p); follow<TFrom, TTo>(c, r, s, "string reader"); UtfStringRangeToStringRangeReader<TFrom, TTo> q(b.p, (vint)b.n); follow<TFrom, TTo>(c, q, s, "range reader");
}
MC_SCENARIO(long_sequences, 16, 2)
{
	static const uint32_t cl[] = { 0x41, 0x7FF, 0xFFFF, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF }; int n = c.choose(c.bound(4, 5)); Scalars s; for (int i = 0; i < n; i++) s.push_back(cl[c.choose(10)]);
	c.log("%s", showUnits(s).c_str()); c.state(hashUnits(s, 9)); beyond<char8_t, char32_t>(c, s); beyond<char8_t, wchar_t>(c, s); beyond<char32_t, char8_t>(c, s); beyond<wchar_t, char8_t>(c, s);
}
MC_SCENARIO(lengths, 16, 1)
{
	int n = c.choose(c.bound(150, 1000)), phase = c.choose(4); Scalars s; int K = sizeof scalarClasses / sizeof *scalarClasses;
	for (int i = 0; i < n; i++) s.push_back(scalarClasses[(i * (phase + 1) + phase) % K]); c.log("length %d phase %d", n, phase); c.state(n * 4 + phase); all(c, s);
}
MC_SCENARIO(malformed_tails, 16, 2)
{
	int n = c.choose(4); Scalars s; static const uint32_t cl[] = { 0x41, 0x7FF, 0xFFFF, 0x10FFFF }; for (int i = 0; i < n; i++) s.push_back(cl[c.choose(4)]);
	c.log("%s then malformed", showUnits(s).c_str()); c.state(hashUnits(s, 5));
	for (Units bad : { Units{0xD800}, Units{0xDC00}, Units{0xD800, 0x41}, Units{0xDC00, 0xD800} })
	{
		stopped<char16_t, char8_t>(c, s, bad); stopped<char16_t, char32_t>(c, s, bad); stopped<char16_t, wchar_t>(c, s, bad); stopped<char16_t, char16be_t>(c, s, bad); stopped<char16_t, char16_t>(c, s, bad);
		Units be; for (auto x : bad) be.push_back(swap16(x)); stopped<char16be_t, char8_t>(c, s, be); stopped<char16be_t, char32_t>(c, s, be); stopped<char16be_t, char16_t>(c, s, be);
	}
	for (Units bad : { Units{0xC2}, Units{0xE1, 0x80}, Units{0xF1, 0x80, 0x80}, Units{0xED, 0xA0, 0x80}, Units{0xED, 0xBF, 0xBF, 0x41}, Units{0xF8, 0x88}, Units{0xFC} })
	{
		stopped<char8_t, char16_t>(c, s, bad); stopped<char8_t, char32_t>(c, s, bad); stopped<char8_t, wchar_t>(c, s, bad); stopped<char8_t, char16be_t>(c, s, bad); stopped<char8_t, char8_t>(c, s, bad);
	}
	for (Units bad : { Units{0xD800}, Units{0xDFFF, 0x41}, Units{0x80000000} }) { stopped<char32_t, char8_t>(c, s, bad); stopped<char32_t, char16_t>(c, s, bad); stopped<wchar_t, char8_t>(c, s, bad); stopped<wchar_t, char16_t>(c, s, bad); stopped<wchar_t, char16be_t>(c, s, bad); }
}
MC_SCENARIO(large, 64, 2)
{
	int K = sizeof scalarClasses / sizeof *scalarClasses; int a = c.choose(K), b = c.pick({ 0, K - 1, -1 }); int n = mc::bigSize(c, 30, c.bound(300, 5000)); Scalars s;
	for (int i = 0; i < n; i++) s.push_back(scalarClasses[b >= 0 && i % 2 ? b : a]); c.log("%d scalars of class %d and %d", n, a, b); c.state(hashUnits({ (uint32_t)n, (uint32_t)a, (uint32_t)b })); all(c, s);
}
// one character of another class at every place of a text of one class
MC_SCENARIO(one_different, 64, 2)
{
	static const uint32_t cl[] = { 0x41, 0x7FF, 0xD7FF, 0xFFFF, 0x10000, 0x10FFFF }; int a = c.choose(6), b = c.choose(6), n = 1 + c.choose(c.bound(22, 120)); if (a == b) return;
	c.log("%d scalars %X, one of them %X", n, cl[a], cl[b]); c.state(hashUnits({ (uint32_t)n, cl[a], cl[b] }));
	for (int i = 0; i < n; i++) { Scalars s(n, cl[a]); s[i] = cl[b]; all(c, s); }
}
