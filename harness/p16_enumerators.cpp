// P16: every enumerator obeys one protocol. For every container and every lazy operation, every interleaving of
// Next / Clone / Reset on several enumerators agrees with a cursor over the reference sequence.
#include "coll.h"

// reads any element as a number
inline int num(int x) { return x; }
inline int num(vint x) { return (int)x; }
inline int num(const Tracked& x) { mc::Registry::use(&x, "reading"); return x.v; }
inline int num(const WString& x) { return El<WString>::read(x); }
template<typename T> int num(const LazyList<T>& xs) { int r = 0; for (auto& x : xs) r = r * 7 + num(x) + 1; return r; }
template<typename K, typename V> int num(const Pair<K, V>& p) { return num(p.key) * 1000 + num(p.value); }

struct Cursor { int p = -1; }; // -1 before the first, n after the last

template<typename T> void compare(IEnumerator<T>* e, const Cursor& k, const Seq& m, const char* what)
{
	if (k.p == -1) MC_CHECK(e->Index() == -1, "%s: Index is %ld before the first Next", what, (long)e->Index());
	else if (k.p < (int)m.size())
	{
		MC_CHECK(e->Index() == k.p, "%s: Index is %ld, expected %d", what, (long)e->Index(), k.p);
		int v = num(e->Current()); MC_CHECK(v == m[k.p], "%s: Current is %d, expected element %d of %s", what, v, k.p, show(m).c_str());
		MC_CHECK(num(e->Current()) == v && e->Index() == k.p, "%s: reading twice differs", what);
	}
}
template<typename T> void next(IEnumerator<T>* e, Cursor& k, const Seq& m, const char* what)
{
	bool r = e->Next(); if (k.p < (int)m.size()) k.p++;
	MC_CHECK(r == (k.p < (int)m.size()), "%s: Next returned %d at position %d of %s", what, r, k.p, show(m).c_str());
}

template<typename T> void protocol(Ctx& c, const IEnumerable<T>& xs, const Seq& m, int depth)
{
	const int N = 2; IEnumerator<T>* e[N] = {}; Cursor k[N];
	struct Cleanup { IEnumerator<T>** e; ~Cleanup() { for (int i = 0; i < N; i++) delete e[i]; } } cleanup{ e };
	e[0] = xs.CreateEnumerator(); e[0]->Evaluated();
	compare(e[0], k[0], m, "a new enumerator");
	for (int d = 0; d < depth; d++)
	{
		int i = e[1] ? c.choose(2) : 0;
		switch (c.choose(4))
		{
		case 0: c.log("e%d.Next()", i); next(e[i], k[i], m, "Next"); break;
		case 1: c.log("e%d.Reset()", i); e[i]->Reset(); k[i].p = -1; break;
		case 2: { c.log("e%d = e%d.Clone()", 1 - i, i); auto n = e[i]->Clone(); MC_CHECK(n->Index() == e[i]->Index(), "the clone is at %ld, the original at %ld", (long)n->Index(), (long)e[i]->Index()); delete e[1 - i]; e[1 - i] = n; k[1 - i] = k[i]; break; }
		case 3: { c.log("e%d = e%d.Clone(), deleting the original", i, i); auto n = e[i]->Clone(); delete e[i]; e[i] = n; break; }
		}
		c.step();
		for (int j = 0; j < N; j++) if (e[j]) compare(e[j], k[j], m, j == i ? "the enumerator" : "the other enumerator");
		c.state(mc::mix(mc::mix(mc::hashSeq(m), k[0].p), e[1] ? k[1].p : -9));
	}
	for (int j = 0; j < N; j++) if (e[j])
	{
		int guard = 0; while (k[j].p < (int)m.size() && guard++ < 1000) { next(e[j], k[j], m, "reading to the end"); compare(e[j], k[j], m, "reading to the end"); }
		MC_CHECK(!e[j]->Next(), "Next returned true after the end"); MC_CHECK(!e[j]->Next(), "Next returned true after the end");
		e[j]->Reset(); k[j].p = -1; compare(e[j], k[j], m, "after Reset");
		for (guard = 0; k[j].p < (int)m.size() && guard < 1000; guard++) { next(e[j], k[j], m, "reading again after Reset"); compare(e[j], k[j], m, "reading again after Reset"); }
	}
	// the enumerable itself was not consumed; range-based for loops see the same elements
	Seq r; for (auto& x : xs) r.push_back(num(x)); MC_CHECK(r == m, "a for loop sees %s, expected %s", show(r).c_str(), show(m).c_str());
	int at = 0; for (auto [x, i] : indexed(xs)) { MC_CHECK(at < (int)m.size() && num(x) == m[at] && i == at, "an indexed for loop differs at %d", at); at++; }
	MC_CHECK(at == (int)m.size(), "an indexed for loop ends at %d of %zu", at, m.size());
}

#define DEPTH c.bound(6, 7)
template<typename C> void fill(C& xs, const Seq& m) { for (int v : m) xs.Add(Tracked(v)); }
static Seq numbers(int n) { Seq m; for (int i = 0; i < n; i++) m.push_back(3 * i + 1); return m; }
static Seq mixed(int n) { static const int t[] = { 4, 1, 4, 3, 1, 2 }; return Seq(t, t + n); }

MC_SCENARIO(array, 16, 3) { Seq m = mixed(c.choose(4)); Array<Tracked> xs((vint)m.size()); for (size_t i = 0; i < m.size(); i++) xs[i] = Tracked(m[i]); protocol(c, xs, m, DEPTH); }
MC_SCENARIO(list, 16, 3) { Seq m = mixed(c.choose(4)); List<Tracked> xs; fill(xs, m); protocol(c, xs, m, DEPTH); }
MC_SCENARIO(sorted_list, 16, 3) { Seq m = mixed(c.choose(4)); SortedList<Tracked> xs; fill(xs, m); std::sort(m.begin(), m.end()); protocol(c, xs, m, DEPTH); }
MC_SCENARIO(dictionary, 32, 3) { int n = c.choose(4); Dictionary<Tracked, Tracked> xs; Seq m; for (int i = n - 1; i >= 0; i--) xs.Add(Tracked(i), Tracked(50 + i)); for (int i = 0; i < n; i++) m.push_back(i * 1000 + 50 + i); protocol(c, xs, m, DEPTH); }
MC_SCENARIO(group, 32, 3)
{
	static const int shapes[][3] = { {0,0,0}, {1,0,0}, {2,0,0}, {1,1,0}, {1,2,1}, {3,0,1} }; int s = c.choose(6); Group<Tracked, Tracked> xs; Seq m;
	for (int k = 2; k >= 0; k--) for (int i = 0; i < shapes[s][k]; i++) xs.Add(Tracked(k), Tracked(50 + i));
	for (int k = 0; k < 3; k++) for (int i = 0; i < shapes[s][k]; i++) m.push_back(k * 1000 + 50 + i);
	protocol(c, xs, m, DEPTH);
}
MC_SCENARIO(lazy_empty, 4, 2) { LazyList<Tracked> xs; protocol(c, xs, {}, DEPTH); }
MC_SCENARIO(lazy_list, 16, 3) { Seq m = mixed(c.choose(4)); List<Tracked> xs; fill(xs, m); protocol(c, LazyList<Tracked>(xs), m, DEPTH); }
MC_SCENARIO(lazy_ptr_list, 16, 3) { Seq m = mixed(c.choose(4)); auto xs = Ptr(new List<Tracked>); fill(*xs.Obj(), m); LazyList<Tracked> l(xs); xs = nullptr; protocol(c, l, m, DEPTH); }
MC_SCENARIO(range, 16, 3) { int n = c.choose(4), s = c.pick({ -2, 0, 5 }); Seq m; for (int i = 0; i < n; i++) m.push_back(s + i); protocol(c, Range<vint>(s, n), m, DEPTH); }
MC_SCENARIO(from_pointer, 16, 3) { static const int b[] = { 0, 7, 8, 9, 0 }; int n = c.choose(4); protocol(c, From(&b[1], &b[1 + n]), Seq(b + 1, b + 1 + n), DEPTH); }
MC_SCENARIO(from_array, 16, 2) { static int b[5] = { 0, 7, 8, 9, 0 }; int(&a)[3] = *(int(*)[3])(b + 1); protocol(c, From(a), { 7, 8, 9 }, DEPTH); }
MC_SCENARIO(from_iterator, 16, 2) { std::vector<int> v = { 0, 3, 1, 2 }; auto w = FromIterator<int>::Wrap(v.begin() + 1, v.end()); protocol(c, w, { 3, 1, 2 }, DEPTH); }

// lazy operations over a list and over another lazy operation (so that the inner enumerator is cloned and reset too)
template<typename F> void lazyOp(Ctx& c, F&& f, int maxN = 4)
{
	Seq m = mixed(c.choose(maxN + 1)); bool nested = c.flip(); List<Tracked> src; LazyList<Tracked> xs;
	if (nested) { for (int v : m) { src.Add(Tracked(v)); src.Add(Tracked(-5)); } xs = From(src).Where([](const Tracked& t) { return t.v != -5; }); }
	else { fill(src, m); xs = src; }
	f(xs, m);
}
MC_SCENARIO(select, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { for (int& v : m) v += 10; protocol(c, xs.Select([](const Tracked& t) { return Tracked(t.v + 10); }), m, DEPTH); }, 3); }
MC_SCENARIO(select_int, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { for (int& v : m) v += 10; protocol(c, xs.Select([](const Tracked& t) { return t.v + 10; }), m, DEPTH); }, 3); }
MC_SCENARIO(where, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { int k = c.choose(3); Seq r; for (int v : m) if (k == 0 ? v % 2 == 0 : k == 1 ? v > 1 : v > 90) r.push_back(v); protocol(c, xs.Where([=](const Tracked& t) { return k == 0 ? t.v % 2 == 0 : k == 1 ? t.v > 1 : t.v > 90; }), r, DEPTH); }, 4); }
MC_SCENARIO(concat, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { int n = c.choose(3); List<Tracked> ys; for (int i = 0; i < n; i++) { ys.Add(Tracked(70 + i)); m.push_back(70 + i); } protocol(c, xs.Concat(ys), m, DEPTH); }, 2); }
MC_SCENARIO(take, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { int n = c.range(-1, 4); if ((int)m.size() > n) m.resize(n < 0 ? 0 : n); protocol(c, xs.Take(n), m, c.bound(5, 6)); }, 3); }
MC_SCENARIO(skip, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { int n = c.range(-2, 4); m.erase(m.begin(), m.begin() + std::max(0, std::min<int>(n, (int)m.size()))); protocol(c, xs.Skip(n), m, c.bound(5, 6)); }, 4); }
MC_SCENARIO(repeat, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { int n = c.range(-1, 3); Seq r; for (int i = 0; i < n; i++) r.insert(r.end(), m.begin(), m.end()); protocol(c, xs.Repeat(n), r, c.bound(5, 6)); }, 2); }
MC_SCENARIO(distinct, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { Seq r; for (int v : m) if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); protocol(c, xs.Distinct(), r, c.bound(5, 6)); }, 5); }
MC_SCENARIO(reverse, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { std::reverse(m.begin(), m.end()); protocol(c, xs.Reverse(), m, DEPTH); }, 3); }
MC_SCENARIO(pairwise, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { int n = c.choose(4); List<Tracked> ys; Seq r; for (int i = 0; i < n; i++) { ys.Add(Tracked(70 + i)); if (i < (int)m.size()) r.push_back(m[i] * 1000 + 70 + i); } protocol(c, xs.Pairwise(ys), r, c.bound(5, 6)); }, 3); }
static Seq distinctOf(const Seq& m) { Seq r; for (int v : m) if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); return r; }
MC_SCENARIO(set_operations, 32, 3)
{
	lazyOp(c, [&](LazyList<Tracked>& xs, Seq m)
	{
		int which = c.choose(3), n = c.choose(3); static const int o[] = { 1, 9, 2 }; List<Tracked> ys; for (int i = 0; i < n; i++) ys.Add(Tracked(o[i]));
		auto in = [&](int v) { for (int i = 0; i < n; i++) if (o[i] == v) return true; return false; }; Seq r;
		if (which == 0) { for (int v : distinctOf(m)) if (in(v)) r.push_back(v); protocol(c, xs.Intersect(ys), r, c.bound(4, 5)); }
		else if (which == 1) { for (int v : distinctOf(m)) if (!in(v)) r.push_back(v); protocol(c, xs.Except(ys), r, c.bound(4, 5)); }
		else { r = m; for (int i = 0; i < n; i++) r.push_back(o[i]); protocol(c, xs.Union(ys), distinctOf(r), c.bound(4, 5)); }
	}, 4);
}
MC_SCENARIO(evaluate, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { protocol(c, xs.Evaluate(c.flip()), m, DEPTH); }, 3); }
MC_SCENARIO(order_by, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { int k = c.choose(3); std::sort(m.begin(), m.end()); if (k == 1) std::reverse(m.begin(), m.end()); protocol(c, k == 0 ? xs.OrderBySelf() : k == 1 ? xs.OrderBy([](const Tracked& a, const Tracked& b) { return b <=> a; }) : xs.OrderByKey([](const Tracked& a) { return a.v; }), m, c.bound(5, 6)); }, 4); }
MC_SCENARIO(select_many, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { Seq r; for (int v : m) for (int i = 0; i < v % 3; i++) r.push_back(v); protocol(c, xs.SelectMany([](const Tracked& t) { return Range<vint>(0, t.v % 3).Select([v = t.v](vint) { return Tracked(v); }); }), r, c.bound(4, 5)); }, 3); }
MC_SCENARIO(group_by, 32, 3) { lazyOp(c, [&](LazyList<Tracked>& xs, Seq m) { Seq r; Seq ks; for (int v : m) ks.push_back(v % 2); for (int k : distinctOf(ks)) { int x = 0; for (int v : m) if (v % 2 == k) x = x * 7 + v + 1; r.push_back(k * 1000 + x); } protocol(c, xs.GroupBy([](const Tracked& t) { return t.v % 2; }), r, c.bound(4, 5)); }, 5); }
// two lazy operations stacked: the positions of the inner one are used by the outer one
MC_SCENARIO(stacked, 64, 4)
{
	Seq m = mixed(c.choose(5)); List<Tracked> src; fill(src, m); LazyList<Tracked> xs = src;
	for (int i = 0; i < 2; i++) switch (c.choose(9))
	{
	case 0: { int n = c.choose(3); c.log("Take(%d)", n); xs = xs.Take(n); if ((int)m.size() > n) m.resize(n); break; }
	case 1: { int n = c.choose(3); c.log("Skip(%d)", n); xs = xs.Skip(n); m.erase(m.begin(), m.begin() + std::min<int>(n, (int)m.size())); break; }
	case 2: { c.log("Repeat(2)"); xs = xs.Repeat(2); Seq r = m; r.insert(r.end(), m.begin(), m.end()); m = r; break; }
	case 3: c.log("Distinct"); xs = xs.Distinct(); m = distinctOf(m); break;
	case 4: c.log("Reverse"); xs = xs.Reverse(); std::reverse(m.begin(), m.end()); break;
	case 5: { c.log("Concat(Skip(1))"); Seq r = m; if (!m.empty()) r.insert(r.end(), m.begin() + 1, m.end()); xs = xs.Concat(xs.Skip(1)); m = r; break; }
	case 6: { c.log("Where(>1)"); xs = xs.Where([](const Tracked& t) { return t.v > 1; }); Seq r; for (int v : m) if (v > 1) r.push_back(v); m = r; break; }
	case 7: { c.log("Select(+1)"); xs = xs.Select([](const Tracked& t) { return Tracked(t.v + 1); }); for (int& v : m) v++; break; }
	case 8: { c.log("Pairwise(Skip(1)), Select(sum)"); Seq r; for (size_t i = 0; i + 1 < m.size(); i++) r.push_back(m[i] + m[i + 1]); xs = xs.Pairwise(xs.Skip(1)).Select([](const Pair<Tracked, Tracked>& p) { return Tracked(p.key.v + p.value.v); }); m = r; break; }
	}
	protocol(c, xs, m, c.bound(3, 4));
}
// larger sources: an enumerator moved to any place, cloned there, and both read to the end, reset and read again
template<typename T> void longProtocol(Ctx& c, const IEnumerable<T>& xs, const Seq& m)
{
	int n = (int)m.size(); for (int p : { 0, 1, n / 3, n / 2, n - 1, n, n + 1 })
	{
		if (p < 0) continue; Ptr<IEnumerator<T>> a(xs.CreateEnumerator()); Cursor k; for (int i = 0; i < p; i++) next(a.Obj(), k, m, "Next"); compare(a.Obj(), k, m, "moved"); Ptr<IEnumerator<T>> b(a->Clone()); Cursor q = k;
		for (int i = 0; i < 3; i++) { next(a.Obj(), k, m, "Next"); compare(a.Obj(), k, m, "Next"); compare(b.Obj(), q, m, "the clone"); }
		a->Reset(); k.p = -1; compare(a.Obj(), k, m, "after Reset"); while (q.p < n) { next(b.Obj(), q, m, "the clone"); compare(b.Obj(), q, m, "the clone"); } for (int i = 0; i <= n; i++) { next(a.Obj(), k, m, "again"); compare(a.Obj(), k, m, "again"); } c.step(n); c.state(mc::mix(mc::hashSeq(m), p));
	}
}
MC_SCENARIO(large, 64, 2)
{
	int n = mc::bigSize(c, 5, c.bound(600, 2100)), op = c.choose(20); c.log("operation %d over %d elements", op, n); Seq m; for (int i = 0; i < n; i++) m.push_back((i * 7) % 50); List<Tracked> src; fill(src, m); LazyList<Tracked> xs = src; List<Tracked> ys; for (int i = 0; i < n; i += 3) ys.Add(Tracked(i % 60)); Seq o; for (int i = 0; i < n; i += 3) o.push_back(i % 60); auto in = [&](int v) { return std::find(o.begin(), o.end(), v) != o.end(); }; Seq r;
	switch (op)
	{
	case 0: longProtocol(c, src, m); break;
	case 1: { SortedList<Tracked> t; fill(t, m); std::sort(m.begin(), m.end()); longProtocol(c, t, m); break; }
	case 2: { Dictionary<Tracked, Tracked> t; for (int i = 0; i < n; i++) t.Set(Tracked(m[i]), Tracked(i % 900)); std::map<int, int> e; for (int i = 0; i < n; i++) e[m[i]] = i % 900; for (auto& x : e) r.push_back(x.first * 1000 + x.second); longProtocol(c, t, r); break; }
	case 3: { Group<Tracked, Tracked> t; for (int i = 0; i < n; i++) t.Add(Tracked(m[i] % 9), Tracked(i % 900)); for (int k = 0; k < 9; k++) for (int i = 0; i < n; i++) if (m[i] % 9 == k) r.push_back(k * 1000 + i % 900); longProtocol(c, t, r); break; }
	case 4: for (int v : m) r.push_back(v + 10); longProtocol(c, xs.Select([](const Tracked& t) { return Tracked(t.v + 10); }), r); break;
	case 5: for (int v : m) if (v % 3 == 0) r.push_back(v); longProtocol(c, xs.Where([](const Tracked& t) { return t.v % 3 == 0; }), r); break;
	case 6: r = m; r.insert(r.end(), o.begin(), o.end()); longProtocol(c, xs.Concat(ys), r); break;
	case 7: r.assign(m.begin(), m.begin() + n / 2); longProtocol(c, xs.Take(n / 2), r); break;
	case 8: r.assign(m.begin() + n / 2, m.end()); longProtocol(c, xs.Skip(n / 2), r); break;
	case 9: for (int i = 0; i < 3; i++) r.insert(r.end(), m.begin(), m.end()); longProtocol(c, xs.Repeat(3), r); break;
	case 10: longProtocol(c, xs.Distinct(), distinctOf(m)); break;
	case 11: r.assign(m.rbegin(), m.rend()); longProtocol(c, xs.Reverse(), r); break;
	case 12: for (size_t i = 0; i < o.size(); i++) r.push_back(m[i] * 1000 + o[i]); longProtocol(c, xs.Pairwise(ys), r); break;
	case 13: for (int v : distinctOf(m)) if (in(v)) r.push_back(v); longProtocol(c, xs.Intersect(ys), r); break;
	case 14: for (int v : distinctOf(m)) if (!in(v)) r.push_back(v); longProtocol(c, xs.Except(ys), r); break;
	case 15: r = m; r.insert(r.end(), o.begin(), o.end()); longProtocol(c, xs.Union(ys), distinctOf(r)); break;
	case 16: longProtocol(c, xs.Evaluate(true), m); break;
	case 17: std::sort(m.begin(), m.end()); longProtocol(c, xs.OrderBySelf(), m); break;
	case 18: for (int v : m) for (int i = 0; i < v % 3; i++) r.push_back(v); longProtocol(c, xs.SelectMany([](const Tracked& t) { return Range<vint>(0, t.v % 3).Select([v = t.v](vint) { return Tracked(v); }); }), r); break;
	case 19: for (int i = 0; i < n; i++) r.push_back(i - 3); longProtocol(c, Range<vint>(-3, n), r); break;
	}
}
// the iterators behind for loops, compared with their end from either side after every step
template<typename R, typename F> static void against(Ctx& c, const R& xs, int n, F&& value)
{
	auto i = begin(xs); auto e = end(xs); int at = 0;
	while (true)
	{
		bool over = at == n; MC_CHECK((i == e) == over && (e == i) == over && (i != e) == !over && (e != i) == !over, "after %d of %d steps the iterator is %s", at, n, over ? "not at the end from every side" : "at the end from some side");
		c.step(); c.state(mc::mix(n, at)); if (over) break; value(*i, at); ++i; at++;
	}
}
MC_SCENARIO(loop_iterators, 8, 2)
{
	Seq m = mixed(c.choose(7)); int n = (int)m.size(), stop = c.choose(n + 1); List<Tracked> xs; fill(xs, m); const IEnumerable<Tracked>& e = xs;
	against(c, e, n, [&](const Tracked& x, int at) { MC_CHECK(num(x) == m[at], "element %d", at); });
	against(c, indexed(e), n, [&](const Tuple<const Tracked&, vint>& x, int at) { MC_CHECK(num(x.get<0>()) == m[at] && x.get<1>() == at, "element %d", at); });
	// a loop left early gives its enumerator back
	{ int at = 0; for (auto& x : e) { MC_CHECK(num(x) == m[at], "element %d", at); if (at++ == stop) break; } } { int at = 0; for (auto [x, i] : indexed(e)) { MC_CHECK(num(x) == m[at] && i == at, "element %d", at); if (at++ == stop) break; } }
}
