// P22: a Variant holds exactly one live value of the alternative its index names, whatever it was assigned before.
#include "coll.h"
#include <Primitives/Variant.h>
#include <set>
// three distinct alternatives with tracked lifetime; A converts from bool-like tags, B from wide strings
template<int K> struct Alt
{
	char pad[8 + 24 * K] = {}; // no two alternatives have the same layout
	Tracked t;
	Alt() :t(0) {}
	explicit Alt(int v) :t(v) {}
	auto operator<=>(const Alt& a)const = default;
};
typedef Alt<0> A; typedef Alt<1> B;
struct alignas(32) Wide { char pad[48] = {}; Tracked t; Wide() :t(0) {} explicit Wide(int v) :t(v) { memset(pad, v, sizeof(pad)); } };
struct FromText { char pad[16] = {}; Tracked t; FromText(const wchar_t* s) :t((int)wcslen(s)) {} };
typedef Variant<A, B, Wide, FromText> V;
struct Val { int k, v; };
template<typename T> void one(const V& cv, V& v, int k, const Val& m, const char* what)
{
	bool is = m.k == k;
	MC_CHECK((cv.TryGet<T>() != nullptr) == is && (v.TryGet<T>() != nullptr) == is, "%s: TryGet of alternative %d (holds %d)", what, k, m.k);
	if (is)
	{
		MC_CHECK(El<Tracked>::read(cv.Get<T>().t) == m.v && El<Tracked>::read(v.Get<T>().t) == m.v && El<Tracked>::read(v.TryGet<T>()->t) == m.v, "%s: alternative %d is %d, expected %d", what, k, cv.Get<T>().t.v, m.v);
		MC_CHECK((uintptr_t)cv.TryGet<T>() % alignof(T) == 0, "%s: alternative %d is not aligned", what, k);
		auto p = (const char*)cv.TryGet<T>(); MC_CHECK(p >= (const char*)&v && p + sizeof(T) <= (const char*)(&v + 1), "%s: the value is outside of the variant", what);
	}
	else MC_CHECK(raises([&] { (void)&cv.Get<T>(); }) && raises([&] { (void)&v.Get<T>(); }) && raises([&] { auto&& r = std::move(v).Get<T>(); (void)&r; }), "%s: Get of alternative %d (holds %d) did not raise", what, k, m.k);
}
void observe(V& v, const Val& m, const char* what, bool full = true)
{
	const V& cv = v; MC_CHECK(v.Index() == m.k, "%s: Index %ld, expected %d", what, (long)v.Index(), m.k);
	if (!full) { int val = -1; cv.Apply([&](auto& x) { val = El<Tracked>::read(x.t); }); MC_CHECK(val == m.v, "%s: the value is %d, expected %d", what, val, m.v); return; } // the operations include one that does nothing, so every state is also a final one
	one<A>(cv, v, 0, m, what); one<B>(cv, v, 1, m, what); one<Wide>(cv, v, 2, m, what); one<FromText>(cv, v, 3, m, what);
	int calls = 0, kind = -1, val = -1;
	auto visitor = Overloading([&](const A& x) { calls++; kind = 0; val = x.t.v; }, [&](const B& x) { calls++; kind = 1; val = x.t.v; }, [&](const Wide& x) { calls++; kind = 2; val = x.t.v; }, [&](const FromText& x) { calls++; kind = 3; val = x.t.v; });
	cv.Apply(visitor); MC_CHECK(calls == 1 && kind == m.k && val == m.v, "%s: Apply called %d callbacks, alternative %d value %d", what, calls, kind, val);
	calls = 0; v.Apply([&](auto& x) { calls++; val = x.t.v; static_assert(!std::is_const_v<std::remove_reference_t<decltype(x)>>); }); MC_CHECK(calls == 1 && val == m.v, "%s: Apply called %d callbacks", what, calls);
	// TryApply runs the callback exactly when it accepts the held alternative
	calls = 0; bool r = cv.TryApply([&](const B& x) { calls++; val = x.t.v; }); MC_CHECK(r == (m.k == 1) && calls == (m.k == 1) && (!r || val == m.v), "%s: const TryApply returned %d with %d calls", what, r, calls);
	calls = 0; r = v.TryApply([&](B& x) { calls++; val = x.t.v; }); MC_CHECK(r == (m.k == 1) && calls == (m.k == 1) && (!r || val == m.v), "%s: TryApply returned %d with %d calls", what, r, calls);
	calls = 0; r = v.TryApply([&](const Wide& x) { calls++; val = x.t.v; }); MC_CHECK(r == (m.k == 2) && calls == (m.k == 2) && (!r || val == m.v), "%s: TryApply with a const callback returned %d with %d calls", what, r, calls);
	calls = 0; r = v.TryApply(Overloading([&](const A& x) { calls++; }, [&](FromText& x) { calls++; })); MC_CHECK(r == (m.k == 0 || m.k == 3) && calls == (int)r, "%s: TryApply with two callbacks returned %d with %d calls", what, r, calls);
	calls = 0; r = v.TryApply([&](A x) { calls++; }); MC_CHECK(r == (m.k == 0) && calls == (int)r, "%s: TryApply by value returned %d with %d calls", what, r, calls);
}
template<typename F> void withAlt(int k, F&& f) { if (k == 0) f((A*)0); else if (k == 1) f((B*)0); else f((Wide*)0); }
static const wchar_t* texts[] = { L"", L"x" };
V* fresh(Ctx& c, Val& m)
{
	int form = c.choose(6), v = c.choose(2); V* r = nullptr;
	if (form == 0) { m = { 0, 0 }; c.log("  default"); return new V(); }
	if (form == 5) { m = { 3, v }; c.log("  from text %d", v); return new V(texts[v]); }
	if (form == 4) { m = { 3, v }; c.log("  at index 3 from text %d", v); return new V(VariantIndex<3>{}, texts[v]); }
	int k = c.choose(3); m = { k, v }; c.log("  alternative %d value %d form %d", k, v, form);
	withAlt(k, [&](auto* t) { typedef std::remove_pointer_t<decltype(t)> T; constexpr vint i = V::IndexOf<T>; if (form == 1) { const T x(v); r = new V(x); MC_CHECK(El<Tracked>::read(x.t) == v, "the source changed"); } else if (form == 2) r = new V(T(v)); else r = new V(VariantIndex<i>{}, v); });
	return r;
}
void history(Ctx& c, int slots, int depth)
{
	{
		std::vector<V*> s; std::vector<Val> m;
		for (int i = 0; i < slots; i++) { Val x; c.log("slot %d", i); if (i) { x = { 1, 5 }; s.push_back(new V(B(5))); } else s.push_back(fresh(c, x)); m.push_back(x); observe(*s[i], m[i], "after construction", false); }
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(slots);
			switch (c.choose(10))
			{
			case 0: { int j = c.choose(slots); c.log("%d = %d (copy)", i, j); const V& src = *s[j]; MC_CHECK(&(*s[i] = src) == s[i], "assignment does not return itself"); m[i] = m[j]; break; }
			case 1: { int j = c.choose(slots); if (i == j) break; c.log("%d = %d (move)", i, j); *s[i] = std::move(*s[j]); m[i] = m[j]; m[j].v = Tracked::Moved; break; }
			case 2: { int k = c.choose(3), v = c.choose(2); c.log("%d = alternative %d value %d (copy)", i, k, v); withAlt(k, [&](auto* t) { typedef std::remove_pointer_t<decltype(t)> T; const T x(v); *s[i] = x; MC_CHECK(El<Tracked>::read(x.t) == v, "the source changed"); }); m[i] = { k, v }; break; }
			case 3: { int k = c.choose(3), v = c.choose(2); c.log("%d = alternative %d value %d (move)", i, k, v); withAlt(k, [&](auto* t) { typedef std::remove_pointer_t<decltype(t)> T; *s[i] = T(v); }); m[i] = { k, v }; break; }
			case 4: { int v = c.choose(2); c.log("%d = text %d", i, v); *s[i] = texts[v]; m[i] = { 3, v }; break; }
			case 5: { int v = c.choose(2); c.log("%d.Set(3, text %d)", i, v); s[i]->Set(VariantIndex<3>{}, texts[v]); m[i] = { 3, v }; break; }
			case 6: { int j = c.choose(slots); if (i == j) break; bool mv = c.flip(); c.log("%d = new from %d (%s)", i, j, mv ? "move" : "copy"); delete s[i]; if (mv) { s[i] = new V(std::move(*s[j])); m[i] = m[j]; m[j].v = Tracked::Moved; } else { const V& src = *s[j]; s[i] = new V(src); m[i] = m[j]; } break; }
			case 7: { c.log("%d = new", i); delete s[i]; s[i] = fresh(c, m[i]); break; }
			case 8: { c.log("write through %d", i); s[i]->Apply([&](auto& x) { x.t.v = 7; }); m[i].v = 7; break; }
			case 9: { if (m[i].k != 1) break; int j = c.choose(slots); c.log("%d = value of %d", j, i); bool set = c.flip(); const B& x = s[i]->Get<B>(); if (set) s[j]->Set(VariantIndex<1>{}, x); else *s[j] = x; m[j] = m[i]; break; }
			}
			c.step(); uint64_t h = 1; for (int k = 0; k < slots; k++) { observe(*s[k], m[k], "after the operation", step + 1 == depth); h = mc::mix(h, m[k].k * 1000 + m[k].v); }
			MC_CHECK(mc::Registry::live() == slots, "%ld live alternatives, expected %d", mc::Registry::live(), slots); c.state(h);
		}
		for (auto p : s) delete p;
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld alternatives are still alive", mc::Registry::live());
}
MC_SCENARIO(one_variant, 32, 3) { history(c, 1, c.bound(3, 4)); }
MC_SCENARIO(two_variants, 64, 4) { history(c, 2, c.bound(2, 3)); }
// the same type as two alternatives, told apart by the index only
MC_SCENARIO(repeated_type, 16, 3)
{
	typedef Variant<Tracked, Tracked> W; int depth = c.bound(4, 5);
	{
		std::vector<W*> s; std::vector<Val> m;
		for (int i = 0; i < 2; i++) { int k = c.choose(2); m.push_back({ k, i }); s.push_back(k ? new W(VariantIndex<1>{}, i) : new W(VariantIndex<0>{}, i)); }
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(2), j = 1 - i;
			switch (c.choose(4))
			{
			case 0: c.log("%d.Set(0, 8)", i); s[i]->Set(VariantIndex<0>{}, 8); m[i] = { 0, 8 }; break;
			case 1: c.log("%d.Set(1, 9)", i); { Tracked t(9); s[i]->Set(VariantIndex<1>{}, t); MC_CHECK(t.v == 9, "the source changed"); } m[i] = { 1, 9 }; break;
			case 2: c.log("%d = %d", i, j); *s[i] = (const W&)*s[j]; m[i] = m[j]; break;
			case 3: c.log("%d = move %d", i, j); *s[i] = std::move(*s[j]); m[i] = m[j]; m[j].v = Tracked::Moved; break;
			}
			c.step(); for (int k = 0; k < 2; k++) { int calls = 0, v = -1; ((const W*)s[k])->Apply([&](const Tracked& t) { calls++; v = El<Tracked>::read(t); }); MC_CHECK(s[k]->Index() == m[k].k && calls == 1 && v == m[k].v, "slot %d: index %ld value %d (%d calls), expected %d %d", k, (long)s[k]->Index(), v, calls, m[k].k, m[k].v); }
			MC_CHECK(mc::Registry::live() == 2, "%ld live alternatives", mc::Registry::live()); c.state(mc::mix(m[0].k * 1000 + m[0].v, m[1].k * 1000 + m[1].v));
		}
		for (auto p : s) delete p;
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked");
}
// alternatives of every size, alignment and layout, next to each other and assigned to each other
MC_SCENARIO(mixed_sizes, 16, 3)
{
	typedef Variant<char, WString, long double, Ptr<Tracked>, double, std::string> W; int depth = c.bound(3, 4);
	{
		W s[2]; int k[2] = { 0, 0 }, v[2] = { 0, 0 };
		auto number = [](const std::string& x) { return x.empty() ? 9 : (int)x.back() - '0'; };
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(2), j = 1 - i, to = c.choose(9); W& w = s[i];
			if (to < 6) { k[i] = to; v[i] = step + 1; c.log("s%d = alternative %d", i, to); }
			int n = step + 1;
			switch (to)
			{
			case 0: w = (char)n; break; case 1: w = WString::Unmanaged(L"text") + WString::FromChar(L'0' + n); break; case 2: w = (long double)n; break; case 3: w = Ptr(new Tracked(n)); break; case 4: w = (double)n; break; case 5: w = std::string("a string that does not fit into the small buffer") + (char)('0' + n); break;
			case 6: c.log("s%d = s%d", i, j); w = (const W&)s[j]; k[i] = k[j]; v[i] = v[j]; break;
			case 7: c.log("s%d = move(s%d), and s%d = 0", i, j, j); w = std::move(s[j]); s[j] = (char)0; k[i] = k[j]; v[i] = v[j]; k[j] = v[j] = 0; break;
			case 8: { c.log("s%d moved out and copied back", i); W t(std::move(w)); w = t; break; }
			}
			std::set<void*> objects;
			for (int x = 0; x < 2; x++)
			{
				W& w = s[x]; MC_CHECK(w.Index() == k[x], "index %ld of s%d, expected %d", (long)w.Index(), x, k[x]); int seen = -1, value = -1; bool aligned = true;
				auto al = [&](auto* p) { aligned = (uintptr_t)p % alignof(std::remove_cvref_t<decltype(*p)>) == 0; };
				w.Apply(Overloading([&](char& x) { al(&x); seen = 0; value = x; }, [&](WString& x) { al(&x); seen = 1; value = x.Length() == 5 ? x[4] - L'0' : 99; }, [&](long double& x) { al(&x); seen = 2; value = (int)x; }, [&](Ptr<Tracked>& x) { al(&x); seen = 3; value = x ? x->v : -2; if (x) objects.insert(x.Obj()); }, [&](double& x) { al(&x); seen = 4; value = (int)x; }, [&](std::string& x) { al(&x); seen = 5; value = x.size() == 49 ? number(x) : 98; }));
				MC_CHECK(seen == k[x] && value == v[x], "s%d shows alternative %d value %d, expected %d value %d", x, seen, value, k[x], v[x]); MC_CHECK(aligned, "alternative %d is not aligned", k[x]);
			}
			MC_CHECK(mc::Registry::live() == (long)objects.size(), "%ld live objects, %zu held", mc::Registry::live(), objects.size()); c.step(); c.state(mc::hashBytes(k, sizeof k, 7) ^ mc::hashBytes(v, sizeof v, 9));
		}
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked");
}
// alternatives that cannot be copied or assigned do not get in the way of the others
struct MoveOnly { Tracked t{ 0 }; MoveOnly() :t(0) {} explicit MoveOnly(int v) :t(v) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; MoveOnly(const MoveOnly&) MC_NO_COPY MoveOnly& operator=(const MoveOnly&) MC_NO_COPY_ASSIGN };
struct NoAssign { Tracked t; explicit NoAssign(int v) :t(v) {} NoAssign(const NoAssign&) = default; NoAssign& operator=(const NoAssign&) MC_NO_ASSIGN };
template<typename X> constexpr bool canCopy = !std::is_same_v<X, MoveOnly>;
template<typename X> constexpr bool canAssign = !std::is_same_v<X, NoAssign>;
template<typename X> static void restricted(Ctx& c, int depth)
{
	{
		typedef Variant<X, A, B> W; int m[2][2]; W* s[2]; for (int i = 0; i < 2; i++) { int k = c.choose(3); m[i][0] = k; m[i][1] = i + 1; s[i] = k == 0 ? new W(X(i + 1)) : k == 1 ? new W(A(i + 1)) : new W(B(i + 1)); c.log("slot %d: alternative %d", i, k); }
		struct Cleanup { W** s; ~Cleanup() { delete s[0]; delete s[1]; } } cleanup{ s };
		for (int d = 0; d < depth; d++)
		{
			int i = c.choose(2), j = 1 - i; bool same = m[i][0] == m[j][0];
			switch (c.choose(5))
			{
			case 0: if constexpr (canCopy<X>) { if (same && m[j][0] == 0) break; } else if (m[j][0] == 0) break; c.log("s%d = s%d", i, j); *s[i] = *s[j]; m[i][0] = m[j][0]; m[i][1] = m[j][1]; break;
			case 1: if constexpr (canAssign<X>) { c.log("s%d = move(s%d)", i, j); *s[i] = std::move(*s[j]); m[i][0] = m[j][0]; m[i][1] = m[j][1]; m[j][1] = Tracked::Moved; } break;
			case 2: { if constexpr (!canCopy<X>) if (m[j][0] == 0) break; c.log("s%d = new copy of s%d", i, j); W* p = new W(*s[j]); delete s[i]; s[i] = p; m[i][0] = m[j][0]; m[i][1] = m[j][1]; break; }
			case 3: { if constexpr (canAssign<X>) { c.log("s%d = new variant moved from s%d", i, j); W* p = new W(std::move(*s[j])); delete s[i]; s[i] = p; m[i][0] = m[j][0]; m[i][1] = m[j][1]; m[j][1] = Tracked::Moved; } break; }
			case 4: { bool a = c.flip(); c.log("s%d = alternative %d", i, a ? 1 : 2); if (a) *s[i] = A(7 + d); else *s[i] = B(7 + d); m[i][0] = a ? 1 : 2; m[i][1] = 7 + d; break; }
			}
			c.step(); MC_CHECK(mc::Registry::live() == 2, "%ld live values in 2 variants", mc::Registry::live());
			for (int k = 0; k < 2; k++)
			{
				W& w = *s[k]; const W& cw = w; MC_CHECK(w.Index() == m[k][0], "Index of s%d is %ld, expected %d", k, (long)w.Index(), m[k][0]); MC_CHECK((w.template TryGet<X>() != nullptr) == (m[k][0] == 0) && (cw.template TryGet<A>() != nullptr) == (m[k][0] == 1) && (w.template TryGet<B>() != nullptr) == (m[k][0] == 2), "TryGet of s%d", k);
				int v = -1, calls = 0; cw.Apply([&](const auto& x) { calls++; v = El<Tracked>::read(x.t); }); MC_CHECK(calls == 1 && v == m[k][1], "s%d holds %d, expected %d", k, v, m[k][1]);
			}
			c.state(mc::hashBytes(m, sizeof m));
		}
	}
	MC_CHECK(mc::Registry::live() == 0, "values never destroyed");
}
MC_SCENARIO(move_only_alternative, 32, 4) { restricted<MoveOnly>(c, c.bound(4, 5)); }
MC_SCENARIO(unassignable_alternative, 32, 4) { restricted<NoAssign>(c, c.bound(4, 5)); }
// the new value is a part of the value that is replaced
struct Box; struct Inner { char pad[8] = {}; Tracked t; explicit Inner(int v) :t(v) {} };
typedef Variant<Inner, Wide, FromText, Ptr<Box>, Box> PV;
struct Box { char pad[72] = {}; Tracked t; Inner inner; Wide wide; Ptr<PV> child; const wchar_t* text; explicit Box(int v) :t(v), inner(v + 1), wide(v + 2), text(texts[1]) {} };
MC_SCENARIO(parts, 16, 3)
{
	{
		int depth = c.bound(3, 4); PV v(Inner(0)); int k = 0, x = 0;
		for (int d = 0; d < depth; d++)
		{
			int at = c.choose(3), part = c.choose(3), form = c.choose(3), n = 10 * (d + 1);
			// build a value that has parts: a box inside of the variant, or one that a pointer in the variant owns
			Box b(n); int sub = c.choose(3); if (part == 2) { b.child = Ptr(sub == 0 ? new PV(Inner(n + 3)) : sub == 1 ? new PV(Wide(n + 3)) : new PV(Ptr(new Box(n + 3)))); } else if (sub) continue;
			if (at == 0) v = b; else if (at == 1) v = Ptr(new Box(b)); else v = std::move(b);
			b.child = nullptr; // the only owner is the variant
			c.log("a box %s; its %s becomes the value, form %d", at == 1 ? "behind a pointer" : "in the variant", part == 0 ? "inner" : part == 1 ? "wide" : sub == 0 ? "child with an inner" : sub == 1 ? "child with a wide" : "child with a pointer", form);
			Box& held = at == 1 ? *v.Get<Ptr<Box>>().Obj() : v.Get<Box>();
			if (part == 0) { k = 0; x = n + 1; if (form == 0) v = (const Inner&)held.inner; else if (form == 1) v = std::move(held.inner); else v.Set(VariantIndex<0>{}, (const Inner&)held.inner); }
			else if (part == 1) { k = 1; x = n + 2; if (form == 0) v = (const Wide&)held.wide; else if (form == 1) v = std::move(held.wide); else v.Set(VariantIndex<1>{}, held.wide); }
			else
			{
				k = sub == 0 ? 0 : sub == 1 ? 1 : 3; x = n + 3;
				if (form == 0) v = (const PV&)*held.child.Obj(); else if (form == 1) v = std::move(*held.child.Obj());
				else if (sub == 0) v = (const Inner&)held.child->Get<Inner>(); else if (sub == 1) v = (const Wide&)held.child->Get<Wide>(); else { if (at == 1) v = (const PV&)*held.child.Obj(); else v = (const Ptr<Box>&)held.child->Get<Ptr<Box>>(); }
			}
			c.step(); MC_CHECK(v.Index() == k, "Index %ld, expected %d", (long)v.Index(), k);
			int calls = 0, got = -1; v.Apply(Overloading([&](Inner& i) { calls++; got = El<Tracked>::read(i.t); }, [&](Wide& w) { calls++; got = El<Tracked>::read(w.t); for (char p : w.pad) if (p != (char)x) got = -2; }, [&](FromText&) { calls++; }, [&](Ptr<Box>& p) { calls++; if (p) got = El<Tracked>::read(p->t); }, [&](Box&) { calls++; }));
			MC_CHECK(calls == 1 && got == x, "the part is %d afterwards, expected %d (%d calls)", got, x, calls); c.state(mc::mix(k * 100 + x, d));
		}
		v = Inner(0);
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld alternatives are still alive", mc::Registry::live());
}
// converted from text that the current value owns
struct Owner { std::string s; explicit Owner(const char* t) :s(t) {} }; struct Text { std::string s; Text(const char* t) :s(t) {} };
MC_SCENARIO(parts_convert, 4, 2)
{
	int n = c.choose(5), form = c.choose(2); static const int sizes[] = { 0, 1, 15, 16, 300 }; std::string t(sizes[n], 'q'); typedef Variant<Owner, Text> W; W v(Owner(t.c_str()));
	c.log("%d characters, form %d", sizes[n], form); const char* p = v.Get<Owner>().s.c_str(); if (form == 0) v = p; else v.Set(VariantIndex<1>{}, p);
	c.step(); MC_CHECK(v.Index() == 1 && v.Get<Text>().s == t, "the text is \"%s\"", v.Index() == 1 ? v.Get<Text>().s.c_str() : "?"); c.state(n);
}
