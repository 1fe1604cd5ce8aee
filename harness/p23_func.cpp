// P23: a Func refers to nothing or to one shared callable; copies share it, and it lives until the last of them lets go.
#include "coll.h"
#include <Primitives/Function.h>
// ---- histories of handles -----------------------------------------------------------------------------------
static int calls[8];
static int plain(int x, Tracked t) { calls[0]++; return x * 2 + El<Tracked>::read(t); }
struct Sender { int base = 100; int method(int x, Tracked t) { calls[1]++; return base + x + El<Tracked>::read(t); } };
static Sender sender;
typedef Func<int(int, Tracked)> F;
struct Functor { Tracked state; Functor(int v) :state(v) {} int operator()(int x, Tracked t) { calls[3]++; state.v++; return 1000 * state.v + x + El<Tracked>::read(t); } };
struct Target { int kind; int state; int live; }; // live: tracked objects it owns
typedef std::vector<Target> Targets;
int expected(Target& t, int x, int a)
{
	switch (t.kind) { case 0: return x * 2 + a; case 1: return 100 + x + a; case 2: return t.state * 10 + x + a; case 3: t.state++; return 1000 * t.state + x + a; case 4: return -(t.state * 10 + x + a); case 5: return x + a; }
	return -1;
}
F create(int kind, int v)
{
	switch (kind)
	{
	case 0: return F(&plain);
	case 1: return F(&sender, &Sender::method);
	case 2: { Tracked cap(v); return F([cap](int x, Tracked t) { calls[2]++; return El<Tracked>::read(cap) * 10 + x + El<Tracked>::read(t); }); }
	case 3: { Functor f(v); if (v % 2) return F(f); return F(std::move(f)); }
	case 4: { Tracked cap(v); Func<short(vint, const Tracked&)> inner([cap](vint x, const Tracked& t) { calls[4]++; return (short)-(El<Tracked>::read(cap) * 10 + (int)x + El<Tracked>::read(t)); }); return F(inner); }
	default: { static auto lambda = [](int x, Tracked t) { calls[5]++; return x + El<Tracked>::read(t); }; return F(lambda); }
	}
}
MC_SCENARIO(handles, 64, 4)
{
	int slots = 3, depth = c.bound(4, 5), next = 1; Targets ts; memset(calls, 0, sizeof(calls)); sender.base = 100;
	{
		std::vector<F> s(slots); std::vector<int> m(slots, -1);
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(slots);
			switch (c.choose(7))
			{
			case 0: { int k = c.choose(6); c.log("%d = new callable of kind %d", i, k); s[i] = create(k, next); ts.push_back({ k, next, k == 2 || k == 3 || k == 4 }); next++; m[i] = (int)ts.size() - 1; break; }
			case 1: { int j = c.choose(slots); c.log("%d = %d", i, j); const F& src = s[j]; s[i] = src; m[i] = m[j]; break; }
			case 2: { int j = c.choose(slots); if (i == j) break; c.log("copy %d, then %d = the copy", j, i); F t(s[j]); MC_CHECK(t == s[j] && !(t != s[j]), "a copy is not equal to its source"); s[i] = std::move(t); m[i] = m[j]; break; }
			case 3: { int j = c.choose(slots); if (i == j) break; c.log("move %d out, then into %d", j, i); F t(std::move(s[j])); MC_CHECK(!s[j], "a moved-from handle is not empty"); s[i] = t; m[i] = m[j]; m[j] = -1; break; }
			case 4: c.log("%d = empty", i); s[i] = F(); m[i] = -1; break;
			case 5: { if (m[i] < 0) break; int x = c.choose(2) + 1; c.log("call %d with %d", i, x); Target& t = ts[m[i]]; int before = calls[t.kind]; int e = expected(t, x, 3); int r = s[i](x, Tracked(3)); MC_CHECK(r == e, "the call returned %d, expected %d", r, e); MC_CHECK(calls[t.kind] == before + 1, "the callable ran %d times", calls[t.kind] - before); break; }
			case 6: { int j = c.choose(slots); if (i == j) break; c.log("wrap %d into a Func of another signature and back, into %d", j, i); bool konst = c.flip(); const F& cs = s[j]; Func<long(short, Tracked)> w = konst ? Func<long(short, Tracked)>(cs) : Func<long(short, Tracked)>(s[j]); MC_CHECK((bool)w == (m[j] >= 0), "wrapping %s handle", m[j] >= 0 ? "a full" : "an empty"); if (w) { Target& t = ts[m[j]]; int e = expected(t, 1, 2); long r = w(1, Tracked(2)); MC_CHECK(r == e, "the wrapped call returned %ld, expected %d", r, e); F back(w); MC_CHECK(back && back != s[j], "wrapping back"); e = expected(t, 2, 0); MC_CHECK(back(2, Tracked(0)) == e, "the call through two wrappers differs"); Func<long(short, Tracked)> w2; F empty(w2); MC_CHECK(!empty, "wrapping an empty handle is not empty"); } break; }
			}
			c.step(); long live = 0; for (size_t k = 0; k < ts.size(); k++) if (std::count(m.begin(), m.end(), (int)k)) live += ts[k].live;
			MC_CHECK(mc::Registry::live() == live, "%ld captured values alive, expected %ld", mc::Registry::live(), live);
			uint64_t h = 1; for (int a = 0; a < slots; a++) { MC_CHECK((bool)s[a] == (m[a] >= 0), "slot %d is %s", a, s[a] ? "full" : "empty"); h = mc::mix(h, m[a] < 0 ? 99 : ts[m[a]].kind * 1000 + ts[m[a]].state); for (int b = 0; b < slots; b++) { bool same = m[a] == m[b]; MC_CHECK((s[a] == s[b]) == same && (s[a] != s[b]) == !same, "slots %d and %d compare %d", a, b, (int)(s[a] == s[b])); } }
			c.state(h);
		}
		// every handle still calls its target
		for (int i = 0; i < slots; i++) if (m[i] >= 0) { int e = expected(ts[m[i]], 5, 1); int r = s[i](5, Tracked(1)); MC_CHECK(r == e, "slot %d: the final call returned %d, expected %d", i, r, e); }
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld captured values leaked", mc::Registry::live());
}
// ---- arguments and results ----------------------------------------------------------------------------------
struct Only { int v; Only(int _v) :v(_v) {} Only(Only&& o) :v(o.v) { o.v = -1; } Only(const Only&) MC_NO_COPY Only& operator=(const Only&) MC_NO_COPY_ASSIGN };
static Only sMoveOnly(Only a, int b) { return Only(a.v + b); }
static void sRef(int& a, const WString& s) { a += (int)s.Length(); }
static int& sRetRef(int& a) { return a; }
static int sRvalue(std::vector<int>&& v) { std::vector<int> t(std::move(v)); int n = 0; for (int x : t) n += x; return n; }
static WString sText(WString a, WString b) { return a + b; }
struct M { int k = 2; Only moveOnly(Only a, int b) { return Only(a.v + b * k - b); } void ref(int& a, const WString& s) { a += (int)s.Length(); } int& retRef(int& a) { return a; } int rvalue(std::vector<int>&& v) { std::vector<int> t(std::move(v)); int n = 0; for (int x : t) n += x; return n; } WString text(WString a, WString b) { return a + b; } };
MC_SCENARIO(arguments, 16, 3)
{
	static M m; int how = c.choose(3), sig = c.choose(5), x = c.choose(4), y = c.choose(4); bool copied = c.flip(); c.log("signature %d through %s", sig, how == 0 ? "function" : how == 1 ? "method" : "lambda");
	auto lambdaMo = [](Only a, int b) { return Only(a.v + b); }; auto lambdaRef = [](int& a, const WString& s) { a += (int)s.Length(); }; auto lambdaRet = [](int& a) -> int& { return a; }; auto lambdaRv = [](std::vector<int>&& v) { std::vector<int> t(std::move(v)); int n = 0; for (int i : t) n += i; return n; }; auto lambdaTx = [](WString a, WString b) { return a + b; };
	const wchar_t* texts[] = { L"", L"a", L"bc", L"def" };
	switch (sig)
	{
	case 0: { Func<Only(Only, int)> f = how == 0 ? Func<Only(Only, int)>(&sMoveOnly) : how == 1 ? Func<Only(Only, int)>(&m, &M::moveOnly) : Func<Only(Only, int)>(lambdaMo); auto g = f; auto& u = copied ? g : f; MC_CHECK(u(Only(x), y).v == x + y, "a move-only argument"); break; }
	case 1: { typedef Func<void(int&, const WString&)> T; T f = how == 0 ? T(&sRef) : how == 1 ? T(&m, &M::ref) : T(lambdaRef); auto g = f; auto& u = copied ? g : f; int a = x; WString s(texts[y]); u(a, s); MC_CHECK(a == x + y && s == texts[y], "an argument by reference: %d", a); break; }
	case 2: { typedef Func<int&(int&)> T; T f = how == 0 ? T(&sRetRef) : how == 1 ? T(&m, &M::retRef) : T(lambdaRet); auto g = f; auto& u = copied ? g : f; int a = x; u(a) = y + 10; MC_CHECK(a == y + 10 && &u(a) == &a, "a result by reference: %d", a); break; }
	case 3: { typedef Func<int(std::vector<int>&&)> T; T f = how == 0 ? T(&sRvalue) : how == 1 ? T(&m, &M::rvalue) : T(lambdaRv); auto g = f; auto& u = copied ? g : f; std::vector<int> v(x, y + 1); MC_CHECK(u(std::move(v)) == x * (y + 1), "an rvalue argument"); break; }
	case 4: { typedef Func<WString(WString, WString)> T; T f = how == 0 ? T(&sText) : how == 1 ? T(&m, &M::text) : T(lambdaTx); auto g = f; auto& u = copied ? g : f; WString a(texts[x]), b(texts[y]); WString e = a + b; MC_CHECK(u(a, b) == e && u(a, b) == e && a == texts[x] && b == texts[y], "string arguments by value"); break; }
	}
	c.step(); c.state(sig * 1000 + how * 100 + x * 10 + y);
}
// results are converted, void drops them; the deduced types are the declared ones
MC_SCENARIO(conversions, 4, 2)
{
	int x = c.range(-3, 3), n = 0; Func<double(int)> d([](int v) { return v * 2; }); MC_CHECK(d(x) == x * 2, "converted result");
	Func<void(int)> v([&](int a) { n += a; return a; }); v(x); v(x); MC_CHECK(n == 2 * x, "dropped result: %d", n);
	Func<WString(int)> w([](int a) { return a < 0 ? L"n" : L"p"; }); MC_CHECK(w(x) == (x < 0 ? L"n" : L"p"), "converted text");
	Func<void(int)> fromFunc(Func<int(int)>([&](int a) { n -= a; return 0; })); fromFunc(2 * x); MC_CHECK(n == 0, "a Func inside a Func");
	Func dl([](int a, char b)->short { return (short)(a + b); }); Func df(&sText); Func dm(&sender, &Sender::method);
	static_assert(std::is_same_v<decltype(dl), Func<short(int, char)>>); static_assert(std::is_same_v<decltype(df), Func<WString(WString, WString)>>); static_assert(std::is_same_v<decltype(dm), F>);
	MC_CHECK(dl(x, 1) == x + 1, "deduced type"); c.step(); c.state(x + 3);
}
// recursion through the handle itself, and a callable that drops another handle to itself while running
MC_SCENARIO(reentrant, 4, 2)
{
	int n = c.choose(6), at = c.choose(6);
	{
		Func<int(int)>* other = new Func<int(int)>; Func<int(int)> f; Tracked cap(9); int drops = 0;
		f = [&f, &other, &drops, at, cap](int k) { if (k == at && other) { delete other; other = nullptr; drops++; } int r = El<Tracked>::read(cap); return k == 0 ? r : f(k - 1) + 1; };
		*other = f; int r = f(n); MC_CHECK(r == 9 + n, "the recursive call returned %d", r); MC_CHECK((other == nullptr) == (at <= n), "dropped"); f = Func<int(int)>(); delete other; c.step();
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked"); c.state(n * 10 + at);
}
// many handles to one callable, released in several orders
MC_SCENARIO(many, 16, 2)
{
	int n = mc::bigSize(c, 1, c.bound(300, 5000)), kind = c.choose(6), order = c.choose(3); c.log("%d handles to a callable of kind %d", n, kind); memset(calls, 0, sizeof(calls)); sender.base = 100;
	{
		Target t{ kind, 7, kind == 2 || kind == 3 || kind == 4 }; std::vector<F> s; s.reserve(n); s.push_back(create(kind, 7)); for (int i = 1; i < n; i++) s.push_back(s[i / 2]);
		for (int j = 0; j < n; j++) { int i = order == 0 ? j : order == 1 ? n - 1 - j : (j * 2 < n ? j * 2 : (j - (n + 1) / 2) * 2 + 1); MC_CHECK(s[i], "handle %d is empty", i); if (j % 5 == 0 || j + 2 > n) { int e = expected(t, 3, 2), r = s[i](3, Tracked(2)); MC_CHECK(r == e, "the call returned %d, expected %d", r, e); } MC_CHECK(mc::Registry::live() == t.live, "%ld captured values alive with %d handles", mc::Registry::live(), n - j); s[i] = F(); c.step(); }
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked"); c.state(n * 32 + kind * 4 + order);
}
