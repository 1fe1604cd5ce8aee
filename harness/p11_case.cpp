// P11: case conversion.
#include "strings.h"
#include <wctype.h>
#include <locale.h>
static wchar_t lowW(wchar_t x, bool uni) { if (uni) return (wchar_t)towlower(x); return x >= L'A' && x <= L'Z' ? x + 32 : x; }
static wchar_t upW(wchar_t x, bool uni) { if (uni) return (wchar_t)towupper(x); return x >= L'a' && x <= L'z' ? x - 32 : x; }
static void wide(Ctx& c, const Ref<wchar_t>& m, int form, bool uni)
{
	Maker<wchar_t> mk; auto s = mk.make(m, form); auto shared = s; Ref<wchar_t> l, u; for (auto x : m) { l.push_back(lowW(x, uni)); u.push_back(upW(x, uni)); }
	auto a = wlower(s), b = wupper(s); sameContent(a, l, "wlower"); sameContent(b, u, "wupper"); sameBuffer(a, l, "wlower"); sameBuffer(b, u, "wupper");
	sameContent(s, m, "the source of a case conversion"); sameContent(shared, m, "a string sharing the source"); c.step(2);
}
static void narrow(Ctx& c, const Ref<char>& m, int form)
{
	Maker<char> mk; auto s = mk.make(m, form); auto shared = s; Ref<char> l, u; for (auto x : m) { l.push_back(x >= 'A' && x <= 'Z' ? x + 32 : x); u.push_back(x >= 'a' && x <= 'z' ? x - 32 : x); }
	auto a = alower(s), b = aupper(s); sameContent(a, l, "alower"); sameContent(b, u, "aupper"); sameBuffer(a, l, "alower"); sameBuffer(b, u, "aupper");
	sameContent(s, m, "the source of a case conversion"); sameContent(shared, m, "a string sharing the source"); c.step(2);
}
MC_SCENARIO(every_wide_character, 32, 1)
{
	setlocale(LC_ALL, "C"); uint32_t base = (uint32_t)c.choose(0x110) << 12; c.log("%X..", base);
	for (uint32_t v = base ? base : 1; v < base + 4096; v++) { wide(c, { (wchar_t)v, L'a', L'Z' }, v % 5, false); c.state(v); }
	wide(c, { (wchar_t)0x7FFFFFFF, (wchar_t)0x80000000, (wchar_t)0x10FFFF }, 0, false);
}
MC_SCENARIO(every_wide_character_unicode_locale, 32, 1)
{
	uint32_t base = (uint32_t)c.choose(0x110) << 12; if (!setlocale(LC_ALL, "C.UTF-8")) return; c.log("%X..", base);
	for (uint32_t v = base ? base : 1; v < base + 4096; v++) { wide(c, { (wchar_t)v }, 0, true); c.state(v); }
	setlocale(LC_ALL, "C");
}
MC_SCENARIO(narrow_sequences, 8, 2) { setlocale(LC_ALL, "C"); int form = c.choose(Forms); int n = c.choose(3); Ref<char> m; for (int i = 0; i < n; i++) m.push_back((char)(1 + c.choose(255))); c.log("%s", show(m).c_str()); c.state(hashRef(m, form)); narrow(c, m, form); }
MC_SCENARIO(wide_sequences, 8, 2)
{
	setlocale(LC_ALL, "C"); static const wchar_t cl[] = { L'@', L'A', L'M', L'Z', L'[', L'`', L'a', L'z', L'{', 0xC0, 0x141, 0x161, 0x10FFFF };
	int form = c.choose(Forms); int n = c.choose(c.bound(4, 5)); Ref<wchar_t> m; for (int i = 0; i < n; i++) m.push_back(cl[c.choose(13)]); c.log("%s", show(m).c_str()); c.state(hashRef(m, form)); wide(c, m, form, false);
	Ref<char> q; for (auto x : m) q.push_back((char)(x < 128 ? x : 0xE1)); narrow(c, q, form);
}
MC_SCENARIO(lengths, 4, 1) { setlocale(LC_ALL, "C"); int n = c.choose(400), form = c.choose(Forms); Ref<wchar_t> m; Ref<char> q; for (int i = 0; i < n; i++) { m.push_back(L'@' + i % 64); q.push_back((char)('@' + (i * 7) % 64)); } c.log("length %d", n); c.state(n * 8 + form); wide(c, m, form, false); narrow(c, q, form); }
MC_SCENARIO(large, 16, 2) { setlocale(LC_ALL, "C"); int n = mc::bigSize(c, 400, c.bound(5000, 70000)), form = c.choose(Forms), ph = c.choose(4); Ref<wchar_t> m; Ref<char> q; for (int i = 0; i < n; i++) { m.push_back(ph == 0 ? L'q' : ph == 1 ? L'Q' : L'@' + (i * ph) % 64); q.push_back((char)(ph == 0 ? 'Q' : ph == 1 ? 'q' : '@' + (i * 7 * ph) % 64)); } c.log("length %d pattern %d", n, ph); c.state(n * 32 + form * 4 + ph); wide(c, m, form, false); narrow(c, q, form); }
// one different character at every place of a run
MC_SCENARIO(one_different, 16, 2)
{
	setlocale(LC_ALL, "C"); static const wchar_t cl[] = { L'q', L'Q', L'1', L'@', L'[', L'{', 0xE9, 0x4E00 }; int a = c.choose(8), b = c.choose(8), n = 1 + c.choose(c.bound(40, 140)), form = c.choose(Forms); if (a == b) return;
	c.log("%d characters %X, one of them %X", n, (int)cl[a], (int)cl[b]); c.state((n * 64 + a * 8 + b) * 8 + form);
	for (int i = 0; i < n; i++) { Ref<wchar_t> m(n, cl[a]); m[i] = cl[b]; wide(c, m, form, false); Ref<char> q; for (auto x : m) q.push_back((char)(x < 128 ? x : 0xE9)); narrow(c, q, form); }
}
