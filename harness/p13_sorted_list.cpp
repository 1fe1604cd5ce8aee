// P13: a SortedList always holds exactly the added and not removed elements, in order, and finds them by value.
#include "coll.h"

// an element with identity: compared by key only, so that equal elements can be told apart
struct Rec
{
	Tracked t; // v = key * 100 + id
	Rec(int v) :t(v) {}
	int key()const { return t.v / 100; }
	auto operator<=>(const Rec& r)const { mc::Registry::use(&t, "comparison of"); mc::Registry::use(&r.t, "comparison of"); return key() <=> r.key(); }
	bool operator==(const Rec& r)const { mc::Registry::use(&t, "comparison of"); mc::Registry::use(&r.t, "comparison of"); return key() == r.key(); }
};
template<> struct El<Rec> { static Rec make(int v) { return Rec(v); } static int read(const Rec& r) { mc::Registry::use(&r.t, "reading"); return r.t.v; } static const bool tracked = true; static int key(int v) { return v / 100; } };
template<typename T> int keyOf(int v) { if constexpr (std::is_same_v<T, Rec>) return v / 100; else return v; }
template<typename T> int makeKey(int k, int id) { if constexpr (std::is_same_v<T, Rec>) return k * 100 + id; else return k; }

template<typename T> Seq content(const SortedList<T>& xs) { Seq r; for (vint i = 0; i < xs.Count(); i++) r.push_back(El<T>::read(xs[i])); return r; }

// m: reference multiset (any order)
template<typename T> void observe(SortedList<T>& xs, const Seq& m, int keys, const char* what)
{
	Seq x = content(xs);
	for (size_t i = 1; i < x.size(); i++) MC_CHECK(keyOf<T>(x[i - 1]) <= keyOf<T>(x[i]), "%s: not in order: %s", what, show(x).c_str());
	Seq a = x, b = m; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
	MC_CHECK(a == b, "%s: elements are %s, expected %s in some order", what, show(a).c_str(), show(b).c_str());
	MC_CHECK(enumerate(xs) == x, "%s: enumeration differs", what);
	for (int k = -1; k <= keys; k++)
	{
		bool in = false; for (int v : m) in = in || keyOf<T>(v) == k;
		if (k < 0 && std::is_same_v<T, WString>) continue;
		T probe = El<T>::make(makeKey<T>(k, 0)); vint at = xs.IndexOf(probe);
		MC_CHECK(xs.Contains(probe) == in, "%s: Contains(%d) is %d in %s", what, k, !in, show(x).c_str());
		if (in) MC_CHECK(at >= 0 && at < xs.Count() && keyOf<T>(x[at]) == k, "%s: IndexOf(%d) is %ld in %s", what, k, (long)at, show(x).c_str());
		else MC_CHECK(at == -1, "%s: IndexOf(%d) is %ld in %s", what, k, (long)at, show(x).c_str());
	}
	checkLive<T>((long)m.size(), what);
}
template<typename T> void removedOne(SortedList<T>& xs, Seq& m, const Seq& before, int key)
{
	// exactly one element with this key has left
	Seq after = content(xs); MC_CHECK(after.size() + 1 == before.size(), "removing one element changed Count by %zd", (ssize_t)(before.size() - after.size()));
	Seq b = before; for (int v : after) { auto it = std::find(b.begin(), b.end(), v); MC_CHECK(it != b.end(), "removing added an element"); b.erase(it); }
	MC_CHECK(keyOf<T>(b[0]) == key, "removing %d removed %d", key, keyOf<T>(b[0]));
	m.erase(std::find(m.begin(), m.end(), b[0]));
}

template<typename T> void sortedOp(Ctx& c, SortedList<T>& xs, Seq& m, int keys, int id)
{
	int n = (int)m.size();
	switch (c.choose(9))
	{
	case 0: case 1: { int k = c.choose(keys); int v = makeKey<T>(k, id); bool mv = c.flip(); c.log("Add(%s %d)", mv ? "move" : "copy", v); T e = El<T>::make(v); vint at = mv ? xs.Add(std::move(e)) : xs.Add(e); m.push_back(v); MC_CHECK(at >= 0 && at < xs.Count() && El<T>::read(xs[at]) == v, "Add returned %ld, which is not where the element is", (long)at); break; }
	case 2: { int k = c.choose(keys + 1); c.log("Remove(%d)", k); bool in = false; for (int v : m) in = in || keyOf<T>(v) == k; Seq before = content(xs); T probe = El<T>::make(makeKey<T>(k, 0)); MC_CHECK(xs.Remove(probe) == in, "Remove(%d) returned %d", k, !in); if (in) removedOne(xs, m, before, k); break; }
	case 3: { int i = c.range(-1, n); c.log("RemoveAt(%d)", i); if (i < 0 || i >= n) { MC_CHECK(raises([&] { xs.RemoveAt(i); }), "RemoveAt(%d) did not raise", i); break; } int v = El<T>::read(xs[i]); Seq x = content(xs); xs.RemoveAt(i); x.erase(x.begin() + i); MC_CHECK(content(xs) == x, "RemoveAt(%d) left %s, expected %s", i, show(content(xs)).c_str(), show(x).c_str()); m.erase(std::find(m.begin(), m.end(), v)); break; }
	case 4: { int i = c.range(-1, n), k = c.range(-1, n - (i > 0 ? i : 0) + 1); c.log("RemoveRange(%d,%d)", i, k); if (i < 0 || k < 0 || i + k > n) { MC_CHECK(raises([&] { xs.RemoveRange(i, k); }), "RemoveRange(%d,%d) did not raise", i, k); break; } Seq x = content(xs); xs.RemoveRange(i, k); x.erase(x.begin() + i, x.begin() + i + k); MC_CHECK(content(xs) == x, "RemoveRange(%d,%d) left %s, expected %s", i, k, show(content(xs)).c_str(), show(x).c_str()); m = x; break; }
	case 5: c.log("Clear"); xs.Clear(); m.clear(); break;
	case 6: { if (!n) break; int i = c.choose(n); c.log("Add(xs[%d])", i); int v = El<T>::read(xs[i]); xs.Add(xs[i]); m.push_back(v); break; }
	case 7: { if (!n) break; int i = c.choose(n); c.log("Remove(xs[%d])", i); int v = El<T>::read(xs[i]); Seq before = content(xs); MC_CHECK(xs.Remove(xs[i]), "Remove of an own element failed"); removedOne(xs, m, before, keyOf<T>(v)); break; }
	case 8: { int way = c.choose(3); c.log("move or copy, way %d", way); Seq x = content(xs);
		if (way == 0) { SortedList<T> t(std::move(xs)); MC_CHECK(xs.Count() == 0, "a list is not empty after its content moved away"); MC_CHECK(content(t) == x, "moving changed the content"); xs = std::move(t); MC_CHECK(t.Count() == 0, "a list is not empty after its content moved away"); }
		else if (way == 1) { SortedList<T> t(static_cast<const SortedList<T>&>(xs)); MC_CHECK(content(t) == x, "a copy differs from its source"); MC_CHECK(content(xs) == x, "copying a list changed its source"); if (t.Count()) t.RemoveAt(0); MC_CHECK(content(xs) == x, "changing a copy changed its source"); }
		else { SortedList<T> t; t.Add(El<T>::make(makeKey<T>(0, 9))); t = std::move(xs); MC_CHECK(content(t) == x, "moving changed the content"); xs.Add(El<T>::make(makeKey<T>(1, 9))); MC_CHECK(xs.Count() == 1, "a moved-from list is not usable"); xs = std::move(t); }
		MC_CHECK(content(xs) == x, "moving away and back changed the content"); break; }
	}
	c.step();
}
template<typename T> void fromEmpty(Ctx& c, int keys, int depth)
{
	{
		SortedList<T> xs; Seq m;
		for (int d = 0; d < depth; d++) { sortedOp(c, xs, m, keys, d); observe(xs, m, keys, "after the operation"); Seq s = m; std::sort(s.begin(), s.end()); c.state(mc::hashSeq(s)); }
	}
	checkLive<T>(0, "after destruction");
}
MC_SCENARIO(histories_rec, 64, 4) { fromEmpty<Rec>(c, 3, c.bound(4, 5)); }
MC_SCENARIO(histories_int, 64, 4) { fromEmpty<int>(c, 4, c.bound(4, 5)); }
MC_SCENARIO(histories_wstring, 32, 4) { fromEmpty<WString>(c, 3, c.bound(3, 4)); }
MC_SCENARIO(histories_placed, 32, 4) { fromEmpty<Placed>(c, 3, c.bound(3, 4)); }

// every way of adding K keys out of a small range, then every removal order: positions found by search
MC_SCENARIO(insertions, 64, 4)
{
	int n = c.choose(c.bound(7, 9)), keys = 5;
	{
		SortedList<Rec> xs; Seq m;
		for (int i = 0; i < n; i++) { int k = c.choose(keys); int v = k * 100 + i; c.log("Add(%d)", k); vint at = xs.Add(Rec(v)); m.push_back(v); MC_CHECK(at >= 0 && at < xs.Count() && El<Rec>::read(xs[at]) == v, "Add returned %ld", (long)at); c.step(); }
		observe(xs, m, keys, "after adding");
		c.state(mc::hashSeq(m));
	}
	checkLive<Rec>(0, "after destruction");
}
// larger lists: search at every size and position
MC_SCENARIO(search, 32, 2)
{
	int n = c.choose(c.bound(70, 200)), probe = c.choose(2 * n + 2) - 1, order = c.choose(3);
	SortedList<int> xs; c.log("%d odd/even keys, order %d, probe %d", n, order, probe);
	for (int i = 0; i < n; i++) { int k = order == 0 ? i : order == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2); xs.Add(k * 2); }
	c.step();
	for (int i = 0; i < n; i++) MC_CHECK(xs[i] == 2 * i, "element %d is %d, expected %d", i, xs[i], 2 * i);
	bool in = probe >= 0 && probe < 2 * n && probe % 2 == 0;
	MC_CHECK(xs.IndexOf(probe) == (in ? probe / 2 : -1), "IndexOf(%d) of %d even numbers is %ld", probe, n, (long)xs.IndexOf(probe));
	MC_CHECK(xs.Remove(probe) == in && xs.Count() == n - in, "Remove(%d)", probe);
	c.state(n * 1000 + probe);
}
MC_SCENARIO(search_duplicates, 32, 2)
{
	int n = c.choose(c.bound(40, 80)), run = 1 + c.choose(12), probe = c.choose(n / run + 2);
	SortedList<Rec> xs; Seq m; c.log("%d elements in runs of %d, probe %d", n, run, probe);
	for (int i = 0; i < n; i++) { int k = (i * 7) % (n ? n : 1); if (n % 7 == 0) k = i; xs.Add(Rec(k / run * 100 + i)); m.push_back(k / run * 100 + i); }
	observe(xs, m, n / run + 1, "runs"); c.step(n + 1);
	int total = 0; for (int v : m) total += v / 100 == probe;
	for (int i = 0; i <= total; i++) MC_CHECK(xs.Remove(Rec(probe * 100)) == (i < total), "removing %d for the %d. time out of %d", probe, i + 1, total);
	MC_CHECK(!xs.Contains(Rec(probe * 100)), "still contains %d", probe);
	c.state(n * 1000 + run * 40 + probe);
}
// large lists: keys are added in five orders, with runs of equal keys; every characteristic element is found and removed
MC_SCENARIO(large, 64, 3)
{
	int n = bigSize(c, 30, c.bound(5000, 33000)), run = c.pick({ 1, 2, 3, 50 }), order = c.choose(5), at = c.choose(7); int p[] = { 0, 1, n / 3, n / 2, n - 2, n - 1, n }; int probe = p[at] / run; c.log("%d elements in runs of %d, order %d, probe %d", n, run, order, probe);
	{
		SortedList<int> xs; Seq m;
		for (int i = 0; i < n; i++) { long k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : order == 3 ? (i * 7919l) % n : (i * 31l + i / 3) % n; int v = (int)k / run * 2; vint r = xs.Add(v); MC_CHECK(r >= 0 && r < xs.Count() && xs[r] == v, "Add returned index %ld of %ld", (long)r, (long)xs.Count()); m.push_back(v); }
		std::sort(m.begin(), m.end()); sameSeq(xs, m, "large list"); c.step(n);
		for (int v = probe * 2 - 1; v <= probe * 2 + 1; v++)
		{
			vint total = std::count(m.begin(), m.end(), v), f = xs.IndexOf(v); MC_CHECK(total ? f >= 0 && f < n && xs[f] == v : f == -1, "IndexOf(%d) is %ld", v, (long)f); MC_CHECK(xs.Contains(v) == (total > 0), "Contains(%d)", v);
		}
		vint total = std::count(m.begin(), m.end(), probe * 2); for (vint i = 0; i <= total; i++) MC_CHECK(xs.Remove(probe * 2) == (i < total), "removing %d for the %ld. time", probe * 2, (long)i + 1);
		m.erase(std::remove(m.begin(), m.end(), probe * 2), m.end()); sameSeq(xs, m, "after removing"); xs.Add(probe * 2); m.insert(std::lower_bound(m.begin(), m.end(), probe * 2), probe * 2); sameSeq(xs, m, "after adding again");
		if (!m.empty()) { vint k = (vint)m.size() / 2; xs.RemoveAt(k); m.erase(m.begin() + k); vint q = (vint)m.size() / 3; xs.RemoveRange(q, q); m.erase(m.begin() + q, m.begin() + 2 * q); sameSeq(xs, m, "after RemoveRange"); }
		c.step(4); c.state(mc::mix(n * 5 + order, run * 10 + at));
	}
}
// values without an order are refused and leave the list unchanged
MC_SCENARIO(unordered, 4, 2)
{
	SortedList<double> xs; int n = 1 + c.choose(6); for (int i = 0; i < n; i++) xs.Add(i * 0.5);
	double nan = __builtin_nan(""); int op = c.choose(4); c.step(); c.state(n * 4 + op); c.log("%d elements, operation %d on NaN", n, op);
	MC_CHECK(raises([&] { if (op == 0) xs.Add(nan); else if (op == 1) xs.IndexOf(nan); else if (op == 2) xs.Contains(nan); else xs.Remove(nan); }), "an unordered value was accepted");
	MC_CHECK(xs.Count() == n, "Count changed"); for (int i = 0; i < n; i++) MC_CHECK(xs[i] == i * 0.5, "element %d changed", i);
}
// elements owned by shared pointers are searched by raw pointer
struct Item { int id; static int live; Item(int i) :id(i) { live++; } ~Item() { live--; } };
int Item::live = 0;
MC_SCENARIO(of_ptr, 32, 3)
{
	Item::live = 0;
	{
		const int K = 4; Ptr<Item> p[K]; for (int i = 0; i < K; i++) p[i] = Ptr<Item>(new Item(i));
		SortedList<Ptr<Item>> xs; int in[K] = {}; int total = 0, depth = c.bound(5, 6);
		for (int d = 0; d < depth; d++)
		{
			int k = c.choose(K);
			if (c.flip()) { c.log("Add(p%d)", k); vint at = xs.Add(p[k]); MC_CHECK(xs[at].Obj() == p[k].Obj(), "Add returned a wrong index"); in[k]++; total++; }
			else { c.log("Remove(p%d)", k); bool was = in[k] > 0; MC_CHECK(xs.Remove(p[k].Obj()) == was, "Remove returned a wrong result"); if (was) { in[k]--; total--; } }
			c.step(); MC_CHECK(xs.Count() == total, "Count");
			for (int i = 0; i < K; i++) MC_CHECK(xs.Contains(p[i].Obj()) == (in[i] > 0), "Contains(p%d)", i);
			for (vint i = 1; i < xs.Count(); i++) MC_CHECK(xs[i - 1].Obj() <= xs[i].Obj(), "not in order");
			c.state(mc::hashBytes(in, sizeof in));
		}
		for (auto& x : p) x = nullptr;
		int distinct = 0; for (int x : in) distinct += x > 0;
		MC_CHECK(Item::live == distinct, "%d objects alive, the list holds %d", Item::live, distinct);
	}
	MC_CHECK(Item::live == 0, "objects never released");
}
// keys next to the limits of their types
template<typename K> void extremes(Ctx& c, int len)
{
	auto& v = extremesOf<K>(); int N = (int)v.size(), n = c.choose(len + 1); SortedList<K> xs; Seq m;
	for (int i = 0; i < n; i++) { int k = c.choose(N); vint at = xs.Add(v[k]); m.push_back(k); MC_CHECK(at >= 0 && at < xs.Count() && xs[at] == v[k], "Add returned %ld", (long)at); c.step(); }
	std::sort(m.begin(), m.end()); c.log("extremes %s", show(m).c_str()); c.state(mc::hashSeq(m, N)); for (int i = 0; i < n; i++) MC_CHECK(xs[i] == v[m[i]], "element %d of %s is wrong", i, show(m).c_str());
	for (int k = 0; k < N; k++) { bool in = std::count(m.begin(), m.end(), k) > 0; vint f = xs.IndexOf(v[k]); MC_CHECK(in ? f >= 0 && f < n && xs[f] == v[k] : f == -1, "IndexOf(extreme %d) is %ld", k, (long)f); MC_CHECK(xs.Contains(v[k]) == in, "Contains(extreme %d)", k); }
	if (n) { int k = m[n / 2]; MC_CHECK(xs.Remove(v[k]) && xs.Count() == n - 1, "Remove(extreme %d)", k); }
}
MC_SCENARIO(extremes_vint, 64, 3) { extremes<vint>(c, c.bound(4, 6)); }
MC_SCENARIO(extremes_int, 64, 3) { extremes<int>(c, c.bound(4, 6)); }
MC_SCENARIO(extremes_unsigned, 64, 3) { extremes<vuint64_t>(c, c.bound(4, 6)); }
MC_SCENARIO(extremes_small, 64, 3) { extremes<signed char>(c, c.bound(4, 6)); }
MC_SCENARIO(extremes_double, 64, 3) { extremes<double>(c, c.bound(4, 6)); }
