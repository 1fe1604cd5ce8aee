// P19: sorting produces an ordered permutation of the input for every input, and touches nothing else.
#include "coll.h"
struct Rec
{
	Tracked t; Rec(int v = 0) :t(v) {} int key()const { return t.v / 100; }
	auto operator<=>(const Rec& r)const { mc::Registry::use(&t, "comparison of"); mc::Registry::use(&r.t, "comparison of"); return key() <=> r.key(); }
	bool operator==(const Rec& r)const { return key() == r.key(); }
};
template<typename F> void checkSorted(const Seq& before, const Seq& after, F&& less, const char* what)
{
	for (size_t i = 1; i < after.size(); i++) MC_CHECK(!less(after[i], after[i - 1]), "%s: %s became %s, not in order", what, show(before).c_str(), show(after).c_str());
	Seq a = before, b = after; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MC_CHECK(a == b, "%s: %s became %s, not a permutation", what, show(before).c_str(), show(after).c_str());
}
static void sortRecs(Ctx& c, const Seq& m, int way)
{
	// v = key * 100 + position: equal keys can be told apart
	{
		std::vector<Rec> buf; buf.reserve(m.size() + 2); buf.push_back(Rec(99901)); for (int v : m) buf.push_back(Rec(v)); buf.push_back(Rec(99902));
		Rec* p = &buf[1]; vint n = (vint)m.size(); int keys = 0;
		switch (way)
		{
		case 0: Sort(p, n); break;
		case 1: Sort(p, n, [](const Rec& a, const Rec& b) { return b.key() <=> a.key(); }); break;
		case 2: SortLambda(p, n, [](const Rec& a, const Rec& b) { return (double)a.key() <=> (double)b.key(); }); break;
		case 3: Sort(p, n, [](const Rec& a, const Rec& b) -> std::weak_ordering { return a.key() <=> b.key(); }); break;
		case 4: Sort(p, n, [](const Rec& a, const Rec& b) { return a.key() - b.key(); }); break;
		default: { Func<std::strong_ordering(Rec, Rec)> f = [](Rec a, Rec b) { return a.key() <=> b.key(); }; Sort(p, n, f); break; }
		}
		(void)keys; Seq r; for (vint i = 0; i < n; i++) { mc::Registry::use(&p[i].t, "reading"); r.push_back(p[i].t.v); }
		if (way == 1) checkSorted(m, r, [](int a, int b) { return a / 100 > b / 100; }, "descending sort"); else checkSorted(m, r, [](int a, int b) { return a / 100 < b / 100; }, "sort");
		MC_CHECK(buf[0].t.v == 99901 && buf[n + 1].t.v == 99902, "sorting changed an element outside of the range"); MC_CHECK(mc::Registry::live() == (long)n + 2, "sorting left %ld live elements of %ld", mc::Registry::live(), (long)n + 2);
	}
	MC_CHECK(mc::Registry::live() == 0, "elements never destroyed"); c.step();
}
MC_SCENARIO(sequences, 64, 4)
{
	int way = c.choose(6), n = c.choose(c.bound(8, 10)), keys = c.bound(4, 4); Seq m; for (int i = 0; i < n; i++) m.push_back(c.choose(keys) * 100 + i); c.log("way %d: %s", way, show(m).c_str()); sortRecs(c, m, way); c.state(mc::hashSeq(m));
}
MC_SCENARIO(few_keys, 64, 4)
{
	int n = c.range(8, c.bound(16, 20)); Seq m; for (int i = 0; i < n; i++) m.push_back(c.choose(2) * 100 + i); c.log("%s", show(m).c_str()); sortRecs(c, m, 0); c.state(mc::hashSeq(m));
}
MC_SCENARIO(permutations, 64, 4)
{
	int n = c.range(1, c.bound(9, 10)); std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i); Seq m; int i = 0; while (!left.empty()) { int k = c.choose((int)left.size()); m.push_back(left[k] * 100 + i++); left.erase(left.begin() + k); } c.log("%s", show(m).c_str()); sortRecs(c, m, 0); c.state(mc::hashSeq(m));
}
// large structured inputs
static void largeShapes(Ctx& c, int n)
{
	int shape = c.choose(8); Seq m; uint32_t x = 12345;
	for (int i = 0; i < n; i++) { int k; switch (shape) { case 0: k = i; break; case 1: k = n - i; break; case 2: k = 1; break; case 3: k = i < n / 2 ? i : n - i; break; case 4: k = i % 2 ? i : n - i; break; case 5: k = (i * 7) % (n | 1); break; case 6: k = i % 3; break; default: x = x * 1664525 + 1013904223; k = (x >> 16) % 50; } m.push_back(k * 10000 + i); }
	std::vector<int> v = m; Sort(v.data(), (vint)n, [](int a, int b) { return a / 10000 <=> b / 10000; }); checkSorted(m, v, [](int a, int b) { return a / 10000 < b / 10000; }, "large sort");
	v = m; Sort(v.data(), (vint)n); checkSorted(m, v, [](int a, int b) { return a < b; }, "large sort of numbers"); c.step(2); c.state(n * 8 + shape); c.log("%d elements, shape %d", n, shape);
}
MC_SCENARIO(shapes, 32, 2)
{
	largeShapes(c, c.choose(c.bound(120, 400)));
}
// sizes around powers of two
MC_SCENARIO(large, 32, 2) { largeShapes(c, bigSize(c, 100, c.bound(5000, 20000))); }
// elements without an order are refused, and the range still holds the same elements
MC_SCENARIO(unordered, 32, 3)
{
	int n = c.range(1, c.bound(5, 6)); double d[8]; int nans = 0; for (int i = 0; i < n; i++) { int k = c.choose(4); d[i] = k == 3 ? __builtin_nan("") : k; nans += k == 3; } double e[8]; memcpy(e, d, sizeof d);
	bool r = raises([&] { Sort(d, (vint)n); }); c.step(); c.state(mc::hashBytes(e, n * sizeof(double)));
	if (n > 1) MC_CHECK(r == (nans > 0), "sorting %d numbers of which %d are unordered: raised=%d", n, nans, r);
	auto key = [](double x) { return x != x ? 9.0 : x; }; std::sort(d, d + n, [&](double a, double b) { return key(a) < key(b); }); std::sort(e, e + n, [&](double a, double b) { return key(a) < key(b); }); for (int i = 0; i < n; i++) MC_CHECK(key(d[i]) == key(e[i]), "the elements changed");
}
// the same through the lazy operations
MC_SCENARIO(lazy, 64, 4)
{
	int n = c.choose(c.bound(7, 8)); Seq m; List<Rec> src; for (int i = 0; i < n; i++) { m.push_back(c.choose(4) * 100 + i); src.Add(Rec(m.back())); } int way = c.choose(3); c.log("way %d: %s", way, show(m).c_str());
	LazyList<Rec> xs = way == 0 ? From(src).OrderBySelf() : way == 1 ? From(src).OrderByKey([](const Rec& r) { return -r.key(); }) : From(src).OrderBy([](const Rec& a, const Rec& b) { return a.key() <=> b.key(); });
	Seq r; for (auto& x : xs) r.push_back(x.t.v); if (way == 1) checkSorted(m, r, [](int a, int b) { return a / 100 > b / 100; }, "OrderByKey"); else checkSorted(m, r, [](int a, int b) { return a / 100 < b / 100; }, "OrderBy");
	for (int i = 0; i < n; i++) MC_CHECK(src[i].t.v == m[i], "ordering changed the source"); c.step(); c.state(mc::hashSeq(m) + way);
}
// worst case inputs finish without deep recursion: all equal, sorted, reversed
MC_SCENARIO(depth, 8, 1)
{
	int shape = c.choose(4); const int n = 3000; std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = shape == 0 ? 1 : shape == 1 ? i : shape == 2 ? n - i : (i * 37) % 101; Seq m = v; static long cur, peak; cur = peak = 0; char base; 
	Sort(v.data(), (vint)n, [&](int a, int b) { char here; long d = &base - &here; if (d < 0) d = -d; if (d > peak) peak = d; return a <=> b; }); c.step(); c.state(shape);
	checkSorted(m, v, [](int a, int b) { return a < b; }, "3000 elements");
}
// numbers next to the limits of their types
template<typename K> void extremes(Ctx& c, int len)
{
	auto& v = extremesOf<K>(); int N = (int)v.size(), n = c.choose(len + 1); std::vector<K> a; Seq m; for (int i = 0; i < n; i++) { int k = c.choose(N); m.push_back(k); a.push_back(v[k]); } c.log("extremes %s", show(m).c_str()); c.state(mc::hashSeq(m, N));
	std::sort(m.begin(), m.end()); std::vector<K> b = a, d = a; Sort(a.data(), (vint)n); Sort(b.data(), (vint)n, [](const K& x, const K& y) { return y <=> x; }); List<K> src; for (K x : d) src.Add(x); List<K> o; CopyFrom(o, From(src).OrderBySelf());
	for (int i = 0; i < n; i++) MC_CHECK(a[i] == v[m[i]] && b[n - 1 - i] == v[m[i]] && o[i] == v[m[i]], "extremes are not in order"); c.step(3);
}
MC_SCENARIO(extremes_vint, 64, 3) { extremes<vint>(c, c.bound(5, 6)); }
MC_SCENARIO(extremes_int, 64, 3) { extremes<int>(c, c.bound(5, 6)); }
MC_SCENARIO(extremes_unsigned, 64, 3) { extremes<vuint64_t>(c, c.bound(5, 6)); }
MC_SCENARIO(extremes_double, 64, 3) { extremes<double>(c, c.bound(5, 6)); }
// sorted, reversed and equal sequences of middle size in which one element was moved, two were exchanged or one has another key, at every place
MC_SCENARIO(displaced, 64, 4)
{
	int n = 2 + c.choose(c.bound(30, 70)), base = c.choose(3), how = c.choose(3), i = c.choose(n), j = c.choose(n); std::vector<int> k; for (int x = 0; x < n; x++) k.push_back(base == 0 ? x * 2 + 2 : base == 1 ? (n - x) * 2 : n);
	if (how == 0) { int v = k[i]; k.erase(k.begin() + i); k.insert(k.begin() + j, v); } else if (how == 1) std::swap(k[i], k[j]); else k[i] = j * 2 + 1;
	Seq m; for (int x = 0; x < n; x++) m.push_back(k[x] * 100 + x); c.log("%s", show(m).c_str()); c.state(mc::hashSeq(m)); std::vector<int> v = m; Sort(v.data(), (vint)n, [](int a, int b) { return a / 100 <=> b / 100; }); checkSorted(m, v, [](int a, int b) { return a / 100 < b / 100; }, "sort"); c.step();
}
