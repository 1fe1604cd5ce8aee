// P10: text <-> number conversions.
#include <mc.h>
#include <Strings/String.h>
#include <Strings/Conversion.h>
#include <string>
#include <vector>
#include <charconv>
#include <cmath>
#include <cfloat>
using namespace vl;
using mc::Ctx;

static AString A(const std::string& s, int form)
{
	if (form == 0) return AString::CopyFrom(s.c_str(), (vint)s.size());
	return AString::CopyFrom((s + "77").c_str(), (vint)s.size() + 2).Left((vint)s.size()); // a part of a longer buffer whose next characters are digits
}
static WString Wd(const std::string& s, int form)
{
	std::wstring w(s.begin(), s.end());
	if (form == 0) return WString::CopyFrom(w.c_str(), (vint)w.size());
	w = L"5" + w + L"77"; return WString::CopyFrom(w.c_str(), (vint)w.size()).Sub(1, (vint)s.size());
}
static bool canonical(const std::string& s, bool& neg, unsigned __int128& mag)
{
	neg = !s.empty() && s[0] == '-'; std::string d = neg ? s.substr(1) : s; mag = 0;
	if (d.empty() || d.size() > 30) return false;
	for (char ch : d) { if (ch < '0' || ch > '9') return false; mag = mag * 10 + (ch - '0'); }
	if (d[0] == '0' && (d.size() > 1 || neg)) return false;
	return true;
}
static void parse(Ctx& c, const std::string& s, int form)
{
	bool neg; unsigned __int128 mag; bool can = canonical(s, neg, mag);
	auto limit = [](int bits) { return (unsigned __int128)1 << bits; };
	bool i32 = can && (neg ? mag <= limit(31) : mag < limit(31)), i64 = can && (neg ? mag <= limit(63) : mag < limit(63)), u32 = can && !neg && mag < limit(32), u64 = can && !neg && mag < limit(64);
	vint64_t sv = i64 ? (vint64_t)(neg ? (uint64_t)0 - (uint64_t)mag : (uint64_t)mag) : 0; vuint64_t uv = u64 ? (vuint64_t)mag : 0;
	auto a = A(s, form); auto w = Wd(s, form); bool ok;
#define T(F, X, COND, V) { ok = !(COND); auto r = F##_test(X, ok); MC_CHECK(ok == (COND), #F "_test(\"%s\") reports %s", s.c_str(), ok ? "success" : "failure"); if (COND) MC_CHECK(r == (V), #F "_test(\"%s\") gives another number", s.c_str()); \
	auto q = F(X); MC_CHECK(q == ((COND) ? (V) : 0), #F "(\"%s\") gives another number", s.c_str()); c.step(2); }
	T(atoi, a, i32, (vint)sv) T(wtoi, w, i32, (vint)sv) T(atoi64, a, i64, sv) T(wtoi64, w, i64, sv) T(atou, a, u32, (vuint)uv) T(wtou, w, u32, (vuint)uv) T(atou64, a, u64, uv) T(wtou64, w, u64, uv)
}
static std::string dec(__int128 v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 m = n ? -(unsigned __int128)v : v; std::string s; while (m) { s.insert(s.begin(), '0' + (int)(m % 10)); m /= 10; } return n ? "-" + s : s; }
static void sameText(const AString& a, const WString& w, const std::string& e, const char* f)
{
	MC_CHECK(a.Length() == (vint)e.size() && w.Length() == (vint)e.size(), "%s: \"%s\" expected, got \"%s\"", f, e.c_str(), a.Buffer());
	for (size_t i = 0; i < e.size(); i++) MC_CHECK(a[i] == e[i] && w[i] == (wchar_t)e[i], "%s: \"%s\" expected, got \"%s\"", f, e.c_str(), a.Buffer());
}
static void print(Ctx& c, __int128 v)
{
	if (v >= INT64_MIN && v <= INT64_MAX) { sameText(itoa((vint)v), itow((vint)v), dec(v), "itoa/itow"); sameText(i64toa((vint64_t)v), i64tow((vint64_t)v), dec(v), "i64toa/i64tow"); c.step(4); }
	if (v >= 0 && v <= UINT64_MAX) { sameText(utoa((vuint)v), utow((vuint)v), dec(v), "utoa/utow"); sameText(u64toa((vuint64_t)v), u64tow((vuint64_t)v), dec(v), "u64toa/u64tow"); c.step(4); }
}
static const char symbols[] = { '0', '1', '9', '-', '+', ' ', '.', 'a' };
MC_SCENARIO(all_short_texts, 64, 3)
{
	int n = c.choose(c.bound(6, 7)); std::string s; for (int i = 0; i < n; i++) s += symbols[c.choose(sizeof symbols)];
	c.log("\"%s\"", s.c_str()); c.state(mc::hashStr(s.c_str())); parse(c, s, 0); parse(c, s, 1);
}
// everything around every power of two and of ten, on both sides of zero, with the usual decorations
MC_SCENARIO(boundaries, 16, 2)
{
	int k = c.choose(70 + 22); __int128 base = 1; if (k < 70) base <<= (k < 68 ? k : 67); else for (int i = 70; i < k; i++) base *= 10;
	bool neg = c.flip(); c.log("around %s", dec(neg ? -base : base).c_str());
	for (int d = -4; d <= 4; d++)
	{
		__int128 v = (neg ? -base : base) + d; std::string s = dec(v); c.state(mc::hashStr(s.c_str()));
		print(c, v);
		for (int f = 0; f < 2; f++) { parse(c, s, f); parse(c, "0" + s, f); parse(c, "+" + s, f); parse(c, " " + s, f); parse(c, s + " ", f); parse(c, s + "0", f); parse(c, s + "x", f); parse(c, "-" + s, f); parse(c, s + "." , f); if (neg && s.size() > 1) parse(c, "-0" + s.substr(1), f); parse(c, "00000000000000000000" + s, f); }
	}
}
MC_SCENARIO(all_small_numbers, 32, 1)
{
	int b = c.choose(c.bound(256, 4096)); c.log("block %d", b);
	for (int i = 0; i < 512; i++) { vint v = (vint)(b * 512 + i) - (c.thorough ? 1048576 : 65536); print(c, v); parse(c, dec(v), i & 1); c.state((uint64_t)v); }
}
MC_SCENARIO(digit_patterns, 16, 2)
{
	int n = 1 + c.choose(20); char d = '0' + c.choose(10), e = '0' + c.choose(10); bool neg = c.flip();
	std::string s = neg ? "-" : ""; s += d; for (int i = 1; i < n; i++) s += e; c.log("%s", s.c_str()); c.state(mc::hashStr(s.c_str())); parse(c, s, 0); parse(c, s, 1);
	for (int p = 0; p < (int)s.size(); p++) { auto t = s; t[p] = 'f'; parse(c, t, 0); t[p] = ' '; parse(c, t, 1); }
	bool ng; unsigned __int128 m; if (canonical(s, ng, m) && m < ((unsigned __int128)1 << 64)) print(c, ng ? -(__int128)m : (__int128)m);
}
// ---- floating point ----
static bool grammar(const std::string& s) // [-]digits[.digits][(e|E)[+-]digits]
{
	size_t i = 0; auto digits = [&] { size_t k = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; return i > k; };
	if (i < s.size() && s[i] == '-') i++;
	if (!digits()) return false;
	if (i < s.size() && s[i] == '.') { i++; if (!digits()) return false; }
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (!digits()) return false; }
	return i == s.size();
}
static void parseFloat(Ctx& c, const std::string& s, int form)
{
	auto a = A(s, form); auto w = Wd(s, form); bool oa = false, ow = false; double x = atof_test(a, oa), y = wtof_test(w, ow);
	MC_CHECK(oa == ow && (!oa || memcmp(&x, &y, 8) == 0 || (x != x && y != y)), "atof_test and wtof_test disagree on \"%s\"", s.c_str()); c.step(2);
	if (grammar(s))
	{
		double e = 0; auto r = std::from_chars(s.data(), s.data() + s.size(), e);
		MC_CHECK(oa, "atof_test(\"%s\") reports failure", s.c_str());
		if (r.ec == std::errc()) MC_CHECK(memcmp(&x, &e, 8) == 0, "atof_test(\"%s\") gives %.17g", s.c_str(), x);
		MC_CHECK(memcmp(&x, &y, 8) == 0 && atof(a) == x && wtof(w) == x, "atof/wtof of \"%s\"", s.c_str()); c.step(2);
	}
	// text that no notation could call a number, or a number followed by something else
	bool digit = false; for (char ch : s) digit |= isdigit((unsigned char)ch) != 0;
	bool trailing = !s.empty() && (s.back() == ' ' || s.back() == '-' || s.back() == '+' || s.back() == 'e');
	if (!digit || trailing) { MC_CHECK(!oa, "atof_test(\"%s\") reports success", s.c_str()); MC_CHECK(atof(a) == 0 && wtof(w) == 0, "atof(\"%s\") is not 0", s.c_str()); c.step(2); }
}
static const char fsym[] = { '0', '1', '7', '.', '-', 'e', '+', ' ' };
MC_SCENARIO(all_short_float_texts, 64, 3)
{
	int n = c.choose(c.bound(6, 7)); std::string s; for (int i = 0; i < n; i++) s += fsym[c.choose(sizeof fsym)];
	c.log("\"%s\"", s.c_str()); c.state(mc::hashStr(s.c_str())); parseFloat(c, s, 0); parseFloat(c, s, 1);
}
static void printFloat(Ctx& c, double v)
{
	char b[400]; snprintf(b, sizeof b, "%.6f", v); std::string e = b; while (e.back() == '0') e.pop_back(); if (e.back() == '.') e.pop_back();
	sameText(ftoa(v), ftow(v), e, "ftoa/ftow"); double back = atof(ftoa(v)), back2 = wtof(ftow(v));
	double err = std::fabs(back - v); MC_CHECK(err <= 5.0000001e-7 || err <= std::fabs(v) * 1e-15, "atof(ftoa(%.17g)) is %.17g", v, back); MC_CHECK(back == back2, "wtof(ftow(%.17g))", v); c.step(4);
}
MC_SCENARIO(all_exponents, 32, 1)
{
	int e = c.choose(2046); bool neg = c.flip(); c.log("biased exponent %d", e);
	for (uint64_t m : { 0ull, 1ull, 0xFFFFFFFFFFFFFull, 0x8000000000000ull, 0x5555555555555ull, 0xAAAAAAAAAAAAAull, 0x123456789ABCDull }) { uint64_t u = ((uint64_t)neg << 63) | ((uint64_t)e << 52) | m; double v; memcpy(&v, &u, 8); c.state(u); printFloat(c, v); }
}
MC_SCENARIO(all_short_decimals, 32, 1)
{
	int hi = c.choose(c.bound(200, 2000)); c.log("%d.*", hi);
	for (int lo = 0; lo < 1000; lo++) { double v = (hi * 1000 + lo) / 1000.0; printFloat(c, v); MC_CHECK(atof(ftoa(v)) == v && atof(ftoa(-v)) == -v, "%.3f does not survive", v); c.step(2); c.state(hi * 1000 + lo); }
	for (int lo = 0; lo < 100; lo++) { double v = hi + lo / 1000000.0; MC_CHECK(atof(ftoa(v)) == v, "%.6f does not survive", v); c.step(); }
}
