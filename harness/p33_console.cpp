// P33: the console shows exactly what was written to it and reads whole lines.
#include "coll.h"
#include <Console.h>
#include <sys/mman.h>
#include <unistd.h>
#include <locale.h>
#include <iostream>
using namespace vl::console;
// stdout and stdin are redirected to memory. freopen also forgets the encoding that glibc fixed at first use, so that each execution may choose a locale.
struct Redirect
{
	int fd, saved; FILE* f; const char* mode; char path[64];
	Redirect(FILE* _f, const char* _mode, const std::string& content) :f(_f), mode(_mode)
	{
		mc::expectNoLeak(false); /* the buffers of the C stream come and go */ mc::Untracked u; if (*mode == 'w') fflush(f); saved = dup(fileno(f)); fd = memfd_create("console", 0); if (write(fd, content.data(), content.size()) != (ssize_t)content.size()) abort();
		lseek(fd, 0, SEEK_SET); snprintf(path, sizeof(path), "/proc/self/fd/%d", fd); if (!freopen(path, mode, f)) abort(); std::wcout.clear(); std::wcin.clear();
	}
	std::string bytes() { mc::Untracked u; std::wcout.flush(); fflush(f); std::string out; char buf[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, buf, sizeof(buf))) > 0) out.append(buf, n); return out; }
	~Redirect() { mc::Untracked u; snprintf(path, sizeof(path), "/proc/self/fd/%d", saved); if (*mode == 'w') fflush(f); if (!freopen(path, *mode == 'w' ? "a" : "r", f)) abort(); close(saved); close(fd); std::wcout.clear(); std::wcin.clear(); }
};
struct InLocale { InLocale(bool utf8) { mc::Untracked u; if (!setlocale(LC_ALL, utf8 ? "C.UTF-8" : "C")) abort(); } ~InLocale() { mc::Untracked u; setlocale(LC_ALL, "C"); } };
static void put8(std::string& s, char32_t x)
{
	if (x < 0x80) s += (char)x; else if (x < 0x800) { s += (char)(0xC0 | (x >> 6)); s += (char)(0x80 | (x & 63)); }
	else if (x < 0x10000) { s += (char)(0xE0 | (x >> 12)); s += (char)(0x80 | ((x >> 6) & 63)); s += (char)(0x80 | (x & 63)); }
	else { s += (char)(0xF0 | (x >> 18)); s += (char)(0x80 | ((x >> 12) & 63)); s += (char)(0x80 | ((x >> 6) & 63)); s += (char)(0x80 | (x & 63)); }
}
static std::string enc(const std::wstring& w) { std::string s; for (auto x : w) put8(s, (char32_t)x); return s; }
static std::string hex(const std::string& s) { std::string r; char b[8]; size_t n = 0; for (unsigned char x : s) { if (n++ > 60) { r += "..."; break; } if (x > 32 && x < 127) { r += (char)x; } else { snprintf(b, sizeof(b), "<%02x>", x); r += b; } } return r; }
static std::string colour(bool r, bool g, bool b, bool l)
{
	Redirect out(stdout, "w", ""); Console::SetColor(r, g, b, l); return out.bytes();
}
static std::vector<std::wstring> texts(bool utf8)
{
	std::vector<std::wstring> t{ L"", L"a", L"bc d", L"x\ny", L"%d%s", std::wstring(L"p\0q", 3) }; if (utf8) { t.push_back(L"\u00e9"); t.push_back(L"\u6f22z"); t.push_back(L"\U0001F600"); } return t;
}
// one call; returns what it must add to standard output
static std::string call(Ctx& c, int form, const std::wstring& t)
{
	switch (form)
	{
	case 0: { std::wstring padded = L"<" + t + L">"; c.log("Write(pointer, %zu) of %s", t.size(), hex(enc(t)).c_str()); Console::Write(padded.c_str() + 1, (vint)t.size()); return enc(t); }
	case 1: { c.log("Write(pointer) of %s", hex(enc(t)).c_str()); Console::Write(t.c_str()); return enc(std::wstring(t.c_str())); }
	case 2: { c.log("Write(string) of %s", hex(enc(t)).c_str()); Console::Write(WString::CopyFrom(t.c_str(), (vint)t.size())); return enc(t); }
	case 3: { c.log("WriteLine(string) of %s", hex(enc(t)).c_str()); Console::WriteLine(WString::CopyFrom(t.c_str(), (vint)t.size())); return enc(t) + "\r\n"; }
	case 4: { std::wstring padded = L"<" + t + L">"; c.log("Write(part of a string) of %s", hex(enc(t)).c_str()); Console::Write(WString::CopyFrom(padded.c_str(), (vint)padded.size()).Sub(1, (vint)t.size())); return enc(t); }
	default: { std::wstring padded = L"<" + t + L">"; c.log("WriteLine(part of a string) of %s", hex(enc(t)).c_str()); Console::WriteLine(WString::CopyFrom(padded.c_str(), (vint)padded.size()).Sub(1, (vint)t.size())); return enc(t) + "\r\n"; }
	}
}
static void writesIn(Ctx& c, bool utf8, int depth, const std::vector<std::wstring>& ts)
{
	InLocale l(utf8); std::string colours[16]; { mc::Untracked u; for (int i = 0; i < 16; i++) colours[i] = colour(i & 1, i & 2, i & 4, i & 8); }
	std::string expected, got; c.log("locale %s", utf8 ? "C.UTF-8" : "C");
	{
		Redirect out(stdout, "w", "");
		for (int i = 0; i < depth; i++)
		{
			int k = c.choose(1 + 6 * (int)ts.size() + 2); if (k == 0) break; k--; c.step();
			if (k < 6 * (int)ts.size()) expected += call(c, k % 6, ts[k / 6]);
			else { int col = k - 6 * (int)ts.size() ? 3 : 12; c.log("SetColor %d", col); Console::SetColor(col & 1, col & 2, col & 4, col & 8); expected += colours[col]; }
		}
		got = out.bytes();
	}
	MC_CHECK(got == expected, "standard output received %s, expected %s", hex(got).c_str(), hex(expected).c_str()); c.state(mc::mix(mc::hashBytes(got.data(), got.size()), utf8));
}
MC_SCENARIO(writes, 64, 2) { writesIn(c, false, c.bound(2, 3), texts(false)); }
MC_SCENARIO(writes_utf8, 64, 2) { writesIn(c, true, c.bound(2, 3), texts(true)); }
MC_SCENARIO(writes_deep, 64, 3) { writesIn(c, true, c.bound(4, 5), { L"", L"\u00e9t" }); }
// lengths around every buffer size
MC_SCENARIO(lengths, 32, 2)
{
	int form = c.choose(6), n = c.choose(c.bound(600, 5000)); bool utf8 = c.flip(); InLocale l(utf8); std::wstring t; for (int i = 0; i < n; i++) t += utf8 && i % 3 == 1 ? (wchar_t)(0x400 + i) : (wchar_t)(L'a' + i % 26);
	std::string expected, got; { Redirect out(stdout, "w", ""); expected = call(c, form, t); expected += call(c, 2, L"#"); got = out.bytes(); }
	MC_CHECK(got == expected, "%d characters: standard output received %zu bytes, expected %zu: %s / %s", n, got.size(), expected.size(), hex(got).c_str(), hex(expected).c_str()); c.step(2); c.state(mc::hashBytes(got.data(), got.size()));
}
// every scalar value, in blocks
MC_SCENARIO(scalars, 32, 1)
{
	int block = c.choose(0x110000 / 256); int form = c.choose(2) ? 3 : 0; InLocale l(true); std::wstring all; for (int i = 0; i < 256; i++) { char32_t x = block * 256 + i; if (x >= 0xD800 && x < 0xE000) continue; all += (wchar_t)x; }
	std::string expected, got; { Redirect out(stdout, "w", ""); for (auto x : all) expected += call(c, form, std::wstring(1, x)); got = out.bytes(); }
	MC_CHECK(got == expected, "characters of block %x: standard output received %s, expected %s", block, hex(got).c_str(), hex(expected).c_str()); c.step(all.size()); c.state(mc::mix(block, form));
}
// a character that cannot be shown: everything written before and everything written by later calls is there
MC_SCENARIO(not_representable, 16, 2)
{
	InLocale l(false); int before = c.choose(3), after = c.choose(4), form = c.choose(6), where = c.choose(4), times = c.range(1, 3); std::wstring bad = where == 0 ? L"\u00e9" : where == 1 ? L"k\u6f22" : where == 2 ? L"\U0001F600k" : L"\u00e9\u00e8";
	std::string head, tail, got; int colourAfter = c.choose(2);
	{
		Redirect out(stdout, "w", ""); for (int i = 0; i < before; i++) head += call(c, 2 + i % 2, i ? L"one" : L"two");
		for (int t = 0; t < times; t++) { call(c, form, bad); }
		if (colourAfter) { std::string dummy; Console::SetColor(true, false, false, true); }
		for (int i = 0; i <= after; i++) tail += call(c, (2 + i + form) % 6, i ? L"three" : L"four"); got = out.bytes();
	}
	MC_CHECK(got.size() >= head.size() + tail.size() && got.compare(0, head.size(), head) == 0 && got.compare(got.size() - tail.size(), tail.size(), tail) == 0, "standard output received %s, expected it to begin with %s and to end with %s", hex(got).c_str(), hex(head).c_str(), hex(tail).c_str());
	{ size_t k = 0; for (auto x : bad) if (x == L'k') k++; size_t seen = 0; for (auto x : got) if (x == 'k') seen++; MC_CHECK(seen == k * times, "of %zu shown characters next to one that cannot be shown %zu arrived: %s", k * times, seen, hex(got).c_str()); }
	MC_CHECK(got.find('\0') == std::string::npos, "standard output received a null character: %s", hex(got).c_str()); c.step(before + after + times); c.state(mc::hashBytes(got.data(), got.size()));
}
// the sixteen colours: three components in the digit of the sequence, brightness apart, nothing else printed
MC_SCENARIO(colours, 1, 1)
{
	int a = c.choose(16), b = c.choose(16); std::string sa, sb; sa = colour(a & 1, a & 2, a & 4, a & 8); sb = colour(b & 1, b & 2, b & 4, b & 8); c.log("colours %d and %d", a, b);
	MC_CHECK((a == b) == (sa == sb), "colours %d and %d are shown as %s and %s", a, b, hex(sa).c_str(), hex(sb).c_str());
	MC_CHECK(sa.size() > 3 && sa[0] == 27 && sa[1] == '[' && sa.back() == 'm', "colour %d is not one escape sequence: %s", a, hex(sa).c_str());
	// parameters of the sequence: exactly one selects a foreground
	int fg = -1, count = 0; std::string p = sa.substr(2, sa.size() - 3); size_t at = 0; while (at <= p.size()) { size_t e = p.find(';', at); if (e == std::string::npos) e = p.size(); int v = atoi(p.substr(at, e - at).c_str()); if ((v >= 30 && v <= 37) || (v >= 90 && v <= 97)) { fg = v % 10; count++; } at = e + 1; }
	MC_CHECK(count == 1 && fg == (a & 7), "colour %d selects foreground %d: %s", a, fg, hex(sa).c_str()); c.step(2); c.state(a * 16 + b);
}
// reading
static void readAll(Ctx& c, const std::string& input, const std::vector<std::wstring>& lines, int extra)
{
	c.log("input %s", hex(input).c_str()); Redirect in(stdin, "r", input);
	for (size_t i = 0; i < lines.size(); i++)
	{
		WString r = Console::Read(); c.step(); std::wstring g(r.Buffer(), (size_t)r.Length()); MC_CHECK(g == lines[i], "line %zu is read as '%s', expected '%s'", i, hex(enc(g)).c_str(), hex(enc(lines[i])).c_str());
	}
	for (int i = 0; i < extra; i++) { WString r = Console::Read(); MC_CHECK(r.Length() == 0, "after the end of the input a line of %d characters is read", (int)r.Length()); }
}
MC_SCENARIO(reads, 64, 2)
{
	bool utf8 = c.flip(); InLocale l(utf8); std::vector<std::wstring> sym{ L"a", L"\n", L"b ", L"\r", std::wstring(1, L'\0') }; if (utf8) sym.push_back(L"\u6f22");
	int n = c.choose(c.bound(7, 8)); std::string input; std::vector<std::wstring> lines(1); for (int i = 0; i < n; i++) { auto& s = sym[c.choose((int)sym.size())]; input += enc(s); if (s == L"\n") lines.push_back(L""); else lines.back() += s; }
	if (lines.back().empty()) lines.pop_back(); readAll(c, input, lines, 2); c.state(mc::mix(mc::hashBytes(input.data(), input.size()), utf8));
}
MC_SCENARIO(read_lengths, 16, 2)
{
	bool utf8 = c.flip(); InLocale l(utf8); int n = c.choose(c.bound(600, 5000)), last = c.choose(2); std::string input; std::vector<std::wstring> lines; for (int k = 0; k < 3; k++) { std::wstring t; for (int i = 0; i < n + k; i++) t += utf8 && i % 5 == 2 ? (wchar_t)(0x4e00 + i) : (wchar_t)(L'a' + i % 26); lines.push_back(t); input += enc(t); if (k < 2 || last) input += "\n"; }
	readAll(c, input, lines, 1); c.state(mc::mix(n, last * 2 + utf8));
}
MC_SCENARIO(read_scalars, 16, 1)
{
	int block = c.choose(0x110000 / 256); InLocale l(true); std::string input; std::vector<std::wstring> lines; for (int i = 0; i < 256; i++) { char32_t x = block * 256 + i; if ((x >= 0xD800 && x < 0xE000) || x == '\n') continue; lines.push_back(std::wstring(1, (wchar_t)x)); put8(input, x); input += '\n'; }
	readAll(c, input, lines, 1); c.state(block);
}
