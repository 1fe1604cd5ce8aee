// P34: functions given to the library may throw. For every operation that calls such functions (or compares elements), an
// exception at every one of the calls: it reaches the caller, no further call is made, nothing leaks or is lost, and the
// operation gives its full result when it is repeated.
#include "coll.h"
#include <Primitives/Event.h>
#include <Primitives/Function.h>
#include <Primitives/Variant.h>
#include <Collections/PartialOrdering.h>
#include <set>
#include <functional>

struct Boom { int at; };
static int fuse = -1, calls = 0;
static void tick() { if (calls++ == fuse) throw Boom{ fuse }; }
// an element whose comparisons are calls, too
struct X
{
	Tracked t;
	X(int v = 0) :t(v) {}
	std::strong_ordering operator<=>(const X& x)const { tick(); return val() <=> x.val(); }
	bool operator==(const X& x)const { tick(); return val() == x.val(); }
	int val()const { mc::Registry::use(&t, "reading"); return t.v; }
};
template<> struct El<X> { static X make(int v) { return X(v); } static int read(const X& x) { return x.val(); } static const bool tracked = true; };

// run the operation, then again with an exception at one of its calls, then once more
template<typename R, typename I> static void faults(Ctx& c, R&& run, I&& intact)
{
	fuse = -1; calls = 0; Seq expected = run(); int n = calls; long live = mc::Registry::live(); intact("after the operation");
	if (n == 0) { c.step(); return; }
	int k = c.choose(n); c.log("call %d of %d throws", k, n); bool thrown = false; fuse = k; calls = 0;
	try { run(); } catch (const Boom& b) { thrown = b.at == k; } catch (const vl::Error&) { fuse = -1; MC_CHECK(false, "the exception was replaced by an error"); }
	fuse = -1; int made = calls; c.step(); c.state(mc::mix(mc::hashSeq(expected, n), k));
	MC_CHECK(thrown, "the exception thrown by call %d did not arrive", k); MC_CHECK(made == k + 1, "%d calls were made, call %d threw", made, k);
	MC_CHECK(mc::Registry::live() == live, "%ld objects are alive, %ld before", mc::Registry::live(), live); intact("after the exception");
	calls = 0; Seq again = run(); MC_CHECK(again == expected, "repeated, the operation gives %s, expected %s", show(again).c_str(), show(expected).c_str()); intact("after the repetition");
}
struct Guard { ~Guard() { fuse = -1; } };

// ---- lazy pipelines
static const int Ops = 20;
static void apply(Ctx& c, int op, LazyList<X>& xs, const List<X>& other)
{
	Tracked cap(3); // every closure owns something
	auto f = [cap](const X& x) { tick(); return X(x.val() + El<Tracked>::read(cap)); };
	switch (op)
	{
	case 0: xs = xs.Select(f); break;
	case 1: xs = xs.Where([cap](const X& x) { tick(); return x.val() % 2 == 1; }); break;
	case 2: xs = xs.Where([cap](const X& x) { tick(); return x.val() < 100; }); break;
	case 3: xs = xs.Distinct(); break;
	case 4: xs = xs.Concat(other); break;
	case 5: xs = xs.Take(2); break;
	case 6: xs = xs.Skip(1); break;
	case 7: xs = xs.Repeat(2); break;
	case 8: xs = xs.Reverse(); break;
	case 9: xs = xs.Intersect(other); break;
	case 10: xs = xs.Except(other); break;
	case 11: xs = xs.Union(other); break;
	case 12: xs = xs.OrderBySelf(); break;
	case 13: xs = xs.OrderBy([cap](const X& a, const X& b) { tick(); return b.val() <=> a.val(); }); break;
	case 14: xs = xs.OrderByKey([cap](const X& a) { tick(); return a.val(); }); break;
	case 15: xs = xs.Evaluate(true); break;
	case 16: xs = xs.Pairwise(xs.Select(f)).Select([cap](const Pair<X, X>& p) { tick(); return X(p.key.val() * 10 + p.value.val()); }); break;
	case 17: xs = xs.SelectMany([cap](const X& x) { tick(); auto l = Ptr(new List<X>); for (int i = 0; i < x.val() % 3; i++) l->Add(X(x.val())); return LazyList<X>(l); }); break;
	case 18: xs = xs.GroupBy([cap](const X& x) { tick(); return x.val() % 2; }).Select([cap](const Pair<int, LazyList<X>>& p) { tick(); return X((int)p.value.Count() * 2 + p.key); }); break;
	case 19: xs = From(other).Select(f).Concat(xs); break;
	}
}
static const char* opNames[] = { "Select", "Where(odd)", "Where(< 100)", "Distinct", "Concat", "Take", "Skip", "Repeat", "Reverse", "Intersect", "Except", "Union", "OrderBySelf", "OrderBy", "OrderByKey", "Evaluate", "Pairwise", "SelectMany", "GroupBy", "concatenated to another" };
static const int Ways = 15;
static Seq readBy(int way, const LazyList<X>& xs)
{
	Seq r; Tracked cap(5);
	switch (way)
	{
	case 0: for (auto& x : xs) r.push_back(x.val()); break;
	case 1: for (auto [x, i] : indexed(xs)) { r.push_back(x.val()); r.push_back((int)i); } break;
	case 2: r.push_back((int)xs.Count()); break;
	case 3: r.push_back(xs.Aggregate(1, [cap](int a, const X& x) { tick(); return a * 3 + x.val(); })); break;
	case 4: r.push_back(xs.First(X(77)).val()); r.push_back(xs.Last(X(77)).val()); break;
	case 5: { List<X> l; CopyFrom(l, xs); for (vint i = 0; i < l.Count(); i++) r.push_back(l[i].val()); break; }
	case 6: { Array<X> l; CopyFrom(l, xs); for (vint i = 0; i < l.Count(); i++) r.push_back(l[i].val()); break; }
	case 7: { SortedList<X> l; CopyFrom(l, xs); for (vint i = 0; i < l.Count(); i++) r.push_back(l[i].val()); break; }
	case 8: r.push_back(xs.All([cap](const X& x) { tick(); return x.val() < 50; })); r.push_back(xs.Any([cap](const X& x) { tick(); return x.val() == 1; })); break;
	case 9: r.push_back(CompareEnumerable(xs, xs) == 0); break;
	case 10: { auto e = xs.Evaluate(true); for (auto& x : e) r.push_back(x.val()); break; }
	case 11: if (!xs.IsEmpty()) { r.push_back(xs.Max().val()); r.push_back(xs.Min().val()); r.push_back(xs.Aggregate([cap](const X& a, const X& b) { tick(); return X(a.val() * 3 + b.val()); }).val()); } break;
	case 13: if (!xs.IsEmpty()) r.push_back(xs.First().val()); else try { xs.First(); r.push_back(1000); } catch (const vl::Error&) { r.push_back(1001); } break;
	case 14: if (!xs.IsEmpty()) r.push_back(xs.Last().val()); else try { xs.Last(); r.push_back(1000); } catch (const vl::Error&) { r.push_back(1001); } break;
	case 12: for (auto& x : xs) { tick(); r.push_back(x.val()); } break; // thrown by the body of a loop
	}
	return r;
}
static void pipeline(Ctx& c, int maxLen, int depth)
{
	Guard g; int n = c.choose(maxLen + 1); List<X> src, other; Seq m{ 3, 1, 3, 2, 1 }, o{ 1, 4 }; m.resize(n); for (int v : m) src.Add(X(v)); for (int v : o) other.Add(X(v));
	std::vector<int> ops; for (int d = 0; d < depth; d++) ops.push_back(c.choose(Ops)); int way = depth < 3 || c.thorough ? c.choose(Ways) : c.pick({ 0, 3, 5 }); bool inside = depth < 3 ? c.flip() : true;
	c.log("%d elements; reading %d; the pipeline is built %s", n, way, inside ? "in the operation" : "before"); for (int op : ops) c.log("  %s", opNames[op]);
	auto build = [&] { LazyList<X> xs = src; for (int op : ops) apply(c, op, xs, other); return xs; };
	auto intact = [&](const char* when) { Seq a, b; for (vint i = 0; i < src.Count(); i++) a.push_back(src[i].val()); for (vint i = 0; i < other.Count(); i++) b.push_back(other[i].val()); MC_CHECK(a == m && b == o, "%s the sources are %s and %s", when, show(a).c_str(), show(b).c_str()); };
	if (inside) faults(c, [&] { return readBy(way, build()); }, intact);
	else { fuse = -1; auto xs = build(); faults(c, [&] { return readBy(way, xs); }, intact); }
}
MC_SCENARIO(pipelines_one, 64, 4) { pipeline(c, c.bound(4, 5), 1); }
MC_SCENARIO(pipelines_two, 64, 4) { pipeline(c, c.bound(3, 4), 2); }
MC_SCENARIO(pipelines_three, 64, 4) { pipeline(c, c.bound(1, 2), 3); }
// an enumerator that was interrupted can be reset, copied and thrown away
static void interrupted(Ctx& c, int maxLen, int depth)
{
	Guard g; int n = c.choose(maxLen + 1); List<X> src, other; Seq m{ 3, 1, 3, 2, 1 }; m.resize(n); for (int v : m) src.Add(X(v)); for (int v : { 1, 4 }) other.Add(X(v));
	fuse = -1; LazyList<X> xs = src; for (int d = 0; d < depth; d++) { int op = c.choose(Ops); c.log("%s", opNames[op]); apply(c, op, xs, other); }
	Seq expected; { auto e = Ptr(xs.CreateEnumerator()); calls = 0; while (e->Next()) expected.push_back(e->Current().val()); } int total = calls; if (total == 0) return;
	int k = c.choose(total), then = c.choose(4); c.log("call %d of %d throws, then %d", k, total, then); Seq got; bool thrown = false;
	auto e = Ptr(xs.CreateEnumerator()); fuse = k; calls = 0; try { while (e->Next()) got.push_back(e->Current().val()); } catch (const Boom&) { thrown = true; } fuse = -1;
	MC_CHECK(thrown, "the exception did not arrive"); MC_CHECK(got.size() <= expected.size() && std::equal(got.begin(), got.end(), expected.begin()), "read %s before the exception, expected a beginning of %s", show(got).c_str(), show(expected).c_str());
	auto all = [&](const Ptr<IEnumerator<X>>& e, const char* what) { Seq r; while (e->Next()) { MC_CHECK(e->Index() == (vint)r.size(), "%s: Index", what); r.push_back(e->Current().val()); } MC_CHECK(r == expected, "%s reads %s, expected %s", what, show(r).c_str(), show(expected).c_str()); };
	switch (then)
	{
	case 0: break;
	case 1: e->Reset(); MC_CHECK(e->Index() == -1, "Index after Reset"); all(e, "the enumerator after Reset"); break;
	case 2: { auto f = Ptr(e->Clone()); e = nullptr; f->Reset(); all(f, "a copy after Reset"); break; }
	case 3: e = nullptr; all(Ptr(xs.CreateEnumerator()), "a new enumerator"); break;
	}
	c.step(); c.state(mc::mix(mc::hashSeq(expected, total), k * 4 + then));
}
MC_SCENARIO(interrupted_one, 32, 3) { interrupted(c, 5, 1); }
MC_SCENARIO(interrupted_two, 64, 3) { interrupted(c, c.bound(3, 4), 2); }
MC_SCENARIO(interrupted_three, 64, 3) { interrupted(c, c.bound(1, 3), 3); }

// ---- containers: a comparison that throws refuses the operation
template<typename C> static Seq plain(const C& xs) { Seq r; for (vint i = 0; i < xs.Count(); i++) r.push_back(xs[i].val()); return r; }
template<typename Op> static void refused(Ctx& c, Op&& op, const std::function<Seq()>& contents)
{
	// op changes the container, so its calls are counted by failing later and later until it gets through
	Seq before = contents(); int most = 12, k = c.choose(most); long live = mc::Registry::live(); bool thrown = false; fuse = k; calls = 0; try { op(); } catch (const Boom&) { thrown = true; } fuse = -1; c.step();
	if (!thrown) { MC_CHECK(calls <= k, "the exception of call %d was swallowed", k); c.state(mc::hashSeq(contents())); return; }
	c.log("comparison %d throws", k); Seq after = contents(); MC_CHECK(after == before, "afterwards the contents are %s, before %s", show(after).c_str(), show(before).c_str());
	MC_CHECK(mc::Registry::live() == live, "%ld objects are alive, %ld before", mc::Registry::live(), live); c.state(mc::mix(mc::hashSeq(before), k));
}
MC_SCENARIO(lists, 64, 3)
{
	Guard g; Seq m; int n = c.choose(c.bound(5, 6)); for (int i = 0; i < n; i++) m.push_back(c.choose(3)); int v = c.choose(4), op = c.choose(3); c.log("%s, operation %d with %d", show(m).c_str(), op, v); X x(v);
	bool in = std::count(m.begin(), m.end(), v) != 0;
	{ List<X> xs; Array<X> ys(n); for (int i = 0; i < n; i++) { xs.Add(X(m[i])); ys[i] = X(m[i]); } auto got = [&] { Seq r = plain(xs), s = plain(ys); r.insert(r.end(), s.begin(), s.end()); return r; };
		refused(c, [&] { if (op == 0) xs.IndexOf(x); else if (op == 1) xs.Remove(x); else ys.Contains(x); }, got); if (op == 1 && plain(xs) == m) MC_CHECK(xs.Remove(x) == in, "Remove afterwards"); MC_CHECK(ys.Contains(x) == in, "Contains afterwards"); }
}
MC_SCENARIO(sorted_lists, 64, 3)
{
	Guard g; Seq m; int n = c.choose(c.bound(6, 8)); SortedList<X> xs; for (int i = 0; i < n; i++) { int v = c.choose(4); m.push_back(v); xs.Add(X(v)); } std::sort(m.begin(), m.end()); int v = c.choose(4), op = c.choose(3); c.log("%s, operation %d with %d", show(m).c_str(), op, v); X x(v); bool in = std::count(m.begin(), m.end(), v) != 0;
	refused(c, [&] { if (op == 0) xs.IndexOf(x); else if (op == 1) xs.Remove(x); else xs.Add(x); }, [&] { return plain(xs); });
	Seq r = plain(xs); if (r == m) { if (op == 1) { MC_CHECK(xs.Remove(x) == in, "Remove afterwards"); if (in) m.erase(std::find(m.begin(), m.end(), v)); } if (op == 2) { xs.Add(x); m.push_back(v); std::sort(m.begin(), m.end()); } MC_CHECK(plain(xs) == m, "afterwards the list is %s, expected %s", show(plain(xs)).c_str(), show(m).c_str()); }
}
MC_SCENARIO(dictionaries, 64, 3)
{
	Guard g; int n = c.choose(c.bound(5, 6)); Dictionary<X, X> xs; std::map<int, int> m; for (int i = 0; i < n; i++) { int k = c.choose(5); m[k] = i; xs.Set(X(k), X(i)); } int k = c.choose(5), op = c.choose(4); c.log("operation %d with %d, %zu associations", op, k, m.size()); X key(k), value(50);
	auto got = [&] { Seq r = plain(xs.Keys()), s = plain(xs.Values()); MC_CHECK(r.size() == s.size() && xs.Count() == (vint)r.size(), "%zu keys, %zu values", r.size(), s.size()); r.insert(r.end(), s.begin(), s.end()); return r; }; Seq was = got();
	auto act = [&] { if (op == 0) xs.Set(key, value); else if (op == 1) { if (!m.count(k)) xs.Add(key, value); } else if (op == 2) xs.Remove(key); else if (m.count(k)) xs.Get(key); };
	refused(c, act, got); if (got() == was) { act(); if (op == 0 || (op == 1 && !m.count(k))) m[k] = 50; else if (op == 2) m.erase(k); Seq e, s; for (auto& x : m) { e.push_back(x.first); s.push_back(x.second); } e.insert(e.end(), s.begin(), s.end()); MC_CHECK(got() == e, "repeated, the operation leaves %s, expected %s", show(got()).c_str(), show(e).c_str()); }
}
MC_SCENARIO(groups, 64, 3)
{
	Guard g; int n = c.choose(c.bound(5, 6)); Group<X, X> xs; std::map<int, Seq> m; for (int i = 0; i < n; i++) { int k = c.choose(4); m[k].push_back(i % 2); xs.Add(X(k), X(i % 2)); } int k = c.choose(5), v = c.choose(2), op = c.choose(5); c.log("operation %d with %d, %d; %zu keys", op, k, v, m.size()); X key(k), value(v);
	auto got = [&] { Seq r; MC_CHECK(xs.Count() == xs.Keys().Count(), "Count and Keys"); for (vint i = 0; i < xs.Count(); i++) { r.push_back(1000 + xs.Keys()[i].val()); for (int y : plain(xs.GetByIndex(i))) r.push_back(y); } return r; }; Seq was = got();
	auto act = [&] { if (op == 0) xs.Add(key, value); else if (op == 1) xs.Remove(key); else if (op == 2) xs.Remove(key, value); else if (op == 3) xs.Contains(key, value); else if (m.count(k)) (void)xs.Get(key).Count(); };
	refused(c, act, got); if (got() == was)
	{
		act(); if (op == 0) m[k].push_back(v); else if (op == 1) m.erase(k); else if (op == 2 && m.count(k)) { auto& s = m[k]; auto f = std::find(s.begin(), s.end(), v); if (f != s.end()) s.erase(f); if (s.empty()) m.erase(k); }
		Seq e; for (auto& x : m) { e.push_back(1000 + x.first); e.insert(e.end(), x.second.begin(), x.second.end()); } MC_CHECK(got() == e, "repeated, the operation leaves %s, expected %s", show(got()).c_str(), show(e).c_str());
	}
}
// joining two groups
MC_SCENARIO(joins, 32, 3)
{
	Guard g; Group<X, X> a, b; Seq ma, mb; for (int k = 0; k < 4; k++) { int x = c.choose(3), y = c.choose(2); for (int i = 0; i < x; i++) a.Add(X(k), X(i)); if (y) b.Add(X(k), X(9)); }
	auto all = [](const Group<X, X>& xs) { Seq r; for (vint i = 0; i < xs.Count(); i++) { r.push_back(1000 + xs.Keys()[i].val()); for (int y : plain(xs.GetByIndex(i))) r.push_back(y); } return r; }; ma = all(a); mb = all(b);
	faults(c, [&] { Seq r; GroupInnerJoin(a, b, [&](const X& k, const List<X>& xs) { tick(); r.push_back(k.val() * 10 + 1); }, [&](const X& k, const List<X>& xs) { tick(); r.push_back(k.val() * 10 + 2); }, [&](const X& k, const List<X>& xs, const List<X>& ys) { tick(); r.push_back(k.val() * 10 + 3); }); return r; },
		[&](const char* when) { MC_CHECK(all(a) == ma && all(b) == mb, "%s the groups changed", when); });
}
// ---- sorting: whatever the comparison did, the elements are still there
MC_SCENARIO(sorting, 64, 3)
{
	Guard g; int n = c.choose(c.bound(6, 7)); Seq m; for (int i = 0; i < n; i++) m.push_back(c.choose(3)); int how = c.choose(3), k = c.choose(c.bound(18, 30)); std::vector<X> v; for (int x : m) v.push_back(X(x)); Tracked cap(1); bool thrown = false;
	auto less = [cap](const X& a, const X& b) { tick(); return a.val() <=> b.val(); }; auto key = Func<std::weak_ordering(const X&, const X&)>([cap](const X& a, const X& b) ->std::weak_ordering { tick(); return a.val() <=> b.val(); });
	auto run = [&] { if (how == 0) SortLambda(v.data(), n, less); else if (how == 1) Sort(v.data(), n, key); else Sort(v.data(), n); };
	c.log("%s, way %d, comparison %d throws", show(m).c_str(), how, k); fuse = k; calls = 0; try { run(); } catch (const Boom&) { thrown = true; } fuse = -1; c.step();
	if (!thrown) MC_CHECK(calls <= k, "the exception was swallowed"); Seq r; for (auto& x : v) r.push_back(x.val()); Seq s = r, e = m; std::sort(s.begin(), s.end()); std::sort(e.begin(), e.end()); MC_CHECK(s == e, "after the exception the elements are %s, before %s", show(r).c_str(), show(m).c_str());
	run(); r.clear(); for (auto& x : v) r.push_back(x.val()); MC_CHECK(r == e, "sorted again: %s", show(r).c_str()); c.state(mc::mix(mc::hashSeq(m), k * 2 + thrown));
}
// ---- events and function objects
MC_SCENARIO(events, 32, 3)
{
	Guard g; int n = 1 + c.choose(4), removed = c.choose(n + 1), k; Event<void(int, const WString&)> e; std::vector<Ptr<EventHandler>> hs; Seq ran; { Tracked cap(2); for (int i = 0; i < n; i++) hs.push_back(e.Add([&ran, cap, i](int x, const WString& s) { ran.push_back(i * 10 + x + (int)s.Length()); tick(); })); }
	if (removed < n) MC_CHECK(e.Remove(hs[removed]), "Remove");
	auto expected = [&](int x) { Seq r; for (int i = 0; i < n; i++) if (i != removed) r.push_back(i * 10 + x + 2); return r; }; int attached = n - (removed < n); if (!attached) return; k = c.choose(attached); c.log("%d callbacks, %d removed, call %d throws", n, removed, k);
	bool thrown = false; fuse = k; calls = 0; try { e(1, WString::Unmanaged(L"ab")); } catch (const Boom& b) { thrown = b.at == k; } fuse = -1; c.step(); c.state(n * 100 + removed * 10 + k); MC_CHECK(thrown, "the exception did not arrive");
	{ std::set<int> once(ran.begin(), ran.end()); Seq exp = expected(1); MC_CHECK((int)ran.size() == k + 1 && once.size() == ran.size(), "%zu calls were made, call %d threw", ran.size(), k); for (int x : ran) MC_CHECK(std::count(exp.begin(), exp.end(), x), "a callback that is not attached ran"); }
	for (int i = 0; i < n; i++) MC_CHECK(hs[i]->IsAttached() == (i != removed), "callback %d is %sattached", i, hs[i]->IsAttached() ? "" : "not ");
	ran.clear(); e(3, WString(L"xy")); Seq r = ran; std::sort(r.begin(), r.end()); MC_CHECK(r == expected(3), "raised again, %s ran, expected %s", show(r).c_str(), show(expected(3)).c_str());
	for (int i = 0; i < n; i++) MC_CHECK(e.Remove(hs[i]) == (i != removed), "Remove afterwards"); ran.clear(); e(3, WString(L"xy")); MC_CHECK(ran.empty(), "removed callbacks ran"); ran.shrink_to_fit();
}
static int sThrows(int x, const X& y) { tick(); return x + y.val(); }
struct M { int k; int f(int x, const X& y) { tick(); return x + y.val() + k; } };
MC_SCENARIO(functions, 16, 2)
{
	Guard g; typedef Func<int(int, const X&)> F; M m{ 4 }; int kind = c.choose(4), copies = c.choose(3); F f; { Tracked cap(4); auto l = [cap](int x, const X& y) { tick(); return x + y.val() + El<Tracked>::read(cap); }; if (kind == 0) f = F(&sThrows); else if (kind == 1) f = F(&m, &M::f); else if (kind == 2) f = F(l); else { F inner(l); f = F([inner, cap](int x, const X& y) { return inner(x, y); }); } }
	std::vector<F> fs(1 + copies, f); X x(7); int add = kind == 0 ? 0 : 4;
	for (auto& h : fs) { bool thrown = false; fuse = 0; calls = 0; try { h(1, x); } catch (const Boom&) { thrown = true; } fuse = -1; c.step(); MC_CHECK(thrown && calls == 1, "the exception did not arrive"); MC_CHECK((bool)h && h == f && x.val() == 7, "afterwards the function is another one"); MC_CHECK(h(1, x) == 8 + add, "called again, it gives another result"); }
	c.state(kind * 4 + copies);
}
// ---- visiting a variant, and the relation of a partial order
MC_SCENARIO(variants, 8, 2)
{
	Guard g; typedef Variant<X, Tracked> V; bool first = c.flip(); V v = first ? V(X(3)) : V(Tracked(3)); int form = c.choose(3); bool thrown = false; fuse = 0; calls = 0; auto cb = Overloading([](const X& x) { tick(); }, [](const Tracked& x) { tick(); });
	try { if (form == 0) v.Apply(cb); else if (form == 1) ((const V&)v).Apply(cb); else v.TryApply(std::move(cb)); } catch (const Boom&) { thrown = true; } fuse = -1; c.step(); c.state(form * 2 + first); MC_CHECK(thrown && calls == 1, "the exception did not arrive, or %d calls were made", calls); MC_CHECK(v.Index() == (first ? 0 : 1) && (first ? v.Get<X>().val() : v.Get<Tracked>().v) == 3, "the variant changed");
}
MC_SCENARIO(relations, 32, 3)
{
	Guard g; int n = c.choose(4), k = c.choose(n * n + 1), mask = c.choose(1 << (n * (n - 1) / 2)); List<int> items; for (int i = 0; i < n; i++) items.Add(i); PartialOrderingProcessor p; bool thrown = false; Tracked cap(1);
	auto f = [=, &cap](int a, int b) { tick(); if (a <= b) return false; int bit = a * (a - 1) / 2 + b; return ((mask >> bit) & 1) == 1; }; fuse = k; calls = 0; try { p.InitWithFunc(items, f); } catch (const Boom&) { thrown = true; } fuse = -1; c.step(); c.log("%d items, relation %x, call %d throws", n, mask, k);
	if (n && k < n * n) MC_CHECK(thrown, "the exception did not arrive"); if (!thrown) { c.state(1); return; }
	p.InitWithFunc(items, f); p.Sort(); MC_CHECK(p.components.Count() == n, "%ld components of %d items", (long)p.components.Count(), n); Seq at(n); for (int i = 0; i < n; i++) { MC_CHECK(p.components[i].nodeCount == 1, "component %d", i); at[(int)p.components[i].firstNode[0]] = i; }
	for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) if ((mask >> (a * (a - 1) / 2 + b)) & 1) MC_CHECK(at[b] < at[a], "item %d comes before item %d it depends on", a, b); c.state(mc::mix(mask, k * 8 + n));
}
// a group of dependencies whose items cannot be compared for a moment
MC_SCENARIO(dependencies, 32, 3)
{
	Guard g; int n = 1 + c.choose(3), mask = c.choose(1 << (n * (n - 1) / 2)), k = c.choose(30); List<X> items; for (int i = 0; i < n; i++) items.Add(X(i)); Group<X, X> dep; for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) if ((mask >> (a * (a - 1) / 2 + b)) & 1) dep.Add(X(a), X(b));
	PartialOrderingProcessor p; bool thrown = false; fuse = k; calls = 0; try { p.InitWithGroup(items, dep); } catch (const Boom&) { thrown = true; } fuse = -1; c.step(); if (!thrown) { MC_CHECK(calls <= k, "the exception was swallowed"); c.state(1); return; } c.log("%d items, relation %x, comparison %d throws", n, mask, k);
	p.InitWithGroup(items, dep); p.Sort(); MC_CHECK(p.components.Count() == n, "%ld components of %d items", (long)p.components.Count(), n); Seq at(n); for (int i = 0; i < n; i++) at[(int)p.components[i].firstNode[0]] = i;
	for (int a = 0; a < n; a++) { Seq ins, exp; for (auto v : *p.nodes[a].ins) ins.push_back((int)v); for (int b = 0; b < a; b++) if ((mask >> (a * (a - 1) / 2 + b)) & 1) { exp.push_back(b); MC_CHECK(at[b] < at[a], "item %d comes before item %d it depends on", a, b); } std::sort(ins.begin(), ins.end()); MC_CHECK(ins == exp, "item %d depends on %s, expected %s", a, show(ins).c_str(), show(exp).c_str()); } c.state(mc::mix(mask, k * 8 + n));
}
