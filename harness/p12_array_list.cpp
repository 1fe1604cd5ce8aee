// P12: Array and List are faithful sequences: every operation history agrees with a plain vector, elements are
// constructed and destroyed exactly once, out-of-range requests raise an error and change nothing.
#include "coll.h"

template<typename T> vint idx(const Seq& m, int v) { for (size_t i = 0; i < m.size(); i++) if (m[i] == v) return (vint)i; return -1; }

template<typename C> void observe(C& xs, const Seq& m, const char* what, bool lookup = true)
{
	typedef typename C::ElementType T;
	sameSeq(xs, m, what);
	for (size_t i = 1; i < m.size(); i++) MC_CHECK(&xs[(vint)i] == &xs[0] + i, "%s: elements are not contiguous", what);
	if (lookup) for (int v : { 0, 1, 2, 7, 99 })
	{
		T k = El<T>::make(v);
		MC_CHECK(xs.IndexOf(k) == idx<T>(m, v), "%s: IndexOf(%d) is %ld, expected %ld in %s", what, v, (long)xs.IndexOf(k), (long)idx<T>(m, v), show(m).c_str());
		MC_CHECK(xs.Contains(k) == (idx<T>(m, v) != -1), "%s: Contains(%d)", what, v);
	}
}

// one operation on a list; positions cover every boundary
template<typename T> void listOp(Ctx& c, List<T>& xs, Seq& m, int fresh)
{
	int n = (int)m.size();
	switch (c.choose(14))
	{
	case 0: { c.log("Add(copy %d)", fresh); T v = El<T>::make(fresh); MC_CHECK(xs.Add(v) == n, "Add returned a wrong index"); MC_CHECK(El<T>::read(v) == fresh, "Add(const&) changed its argument"); m.push_back(fresh); break; }
	case 1: { c.log("Add(move %d)", fresh); MC_CHECK(xs.Add(El<T>::make(fresh)) == n, "Add returned a wrong index"); m.push_back(fresh); break; }
	case 2: { int i = c.range(-1, n + 1); c.log("Insert(%d, copy %d)", i, fresh); T v = El<T>::make(fresh);
		if (i < 0 || i > n) MC_CHECK(raises([&] { xs.Insert(i, v); }), "Insert(%d) did not raise", i);
		else { MC_CHECK(xs.Insert(i, v) == i, "Insert returned a wrong index"); m.insert(m.begin() + i, fresh); } break; }
	case 3: { int i = c.range(-1, n + 1); c.log("Insert(%d, move %d)", i, fresh);
		if (i < 0 || i > n) MC_CHECK(raises([&] { xs.Insert(i, El<T>::make(fresh)); }), "Insert(%d) did not raise", i);
		else { MC_CHECK(xs.Insert(i, El<T>::make(fresh)) == i, "Insert returned a wrong index"); m.insert(m.begin() + i, fresh); } break; }
	case 4: { int i = c.range(-1, n + 1); c.log("RemoveAt(%d)", i);
		if (i < 0 || i >= n) MC_CHECK(raises([&] { xs.RemoveAt(i); }), "RemoveAt(%d) of %d did not raise", i, n);
		else { MC_CHECK(xs.RemoveAt(i), "RemoveAt returned false"); m.erase(m.begin() + i); } break; }
	case 5: { int i = c.range(-1, n + 1), k = c.range(-1, n + 1); c.log("RemoveRange(%d, %d)", i, k);
		if (i < 0 || i > n || k < 0 || i + k > n) MC_CHECK(raises([&] { xs.RemoveRange(i, k); }), "RemoveRange(%d, %d) of %d did not raise", i, k, n);
		else { MC_CHECK(xs.RemoveRange(i, k), "RemoveRange returned false"); m.erase(m.begin() + i, m.begin() + i + k); } break; }
	case 6: { int v = c.pick({ 0, 1, 7, 99 }); c.log("Remove(%d)", v); T k = El<T>::make(v); vint at = idx<T>(m, v); MC_CHECK(xs.Remove(k) == (at != -1), "Remove(%d) returned a wrong result", v); if (at != -1) m.erase(m.begin() + at); break; }
	case 7: { int i = c.range(-1, n); c.log("Set(%d, copy %d)", i, fresh); T v = El<T>::make(fresh); if (i < 0 || i >= n) MC_CHECK(raises([&] { xs.Set(i, v); }), "Set(%d) did not raise", i); else { MC_CHECK(xs.Set(i, v), "Set returned false"); m[i] = fresh; } break; }
	case 8: { int i = c.range(-1, n); c.log("Set(%d, move %d)", i, fresh); if (i < 0 || i >= n) MC_CHECK(raises([&] { xs.Set(i, El<T>::make(fresh)); }), "Set(%d) did not raise", i); else { MC_CHECK(xs.Set(i, El<T>::make(fresh)), "Set returned false"); m[i] = fresh; } break; }
	case 9: { c.log("Clear"); MC_CHECK(xs.Clear(), "Clear returned false"); m.clear(); break; }
	case 10: { if (!n) break; int i = c.choose(n); c.log("xs[%d] = %d", i, fresh); xs[i] = El<T>::make(fresh); m[i] = fresh; break; }
	// arguments referring to the container's own elements
	case 11: { if (!n) break; int i = c.choose(n), k = c.choose(n + 1); c.log("Insert(%d, xs[%d])", k, i); int v = m[i]; MC_CHECK(xs.Insert(k, xs.Get(i)) == k, "Insert returned a wrong index"); m.insert(m.begin() + k, v); break; }
	case 12: { if (!n) break; int i = c.choose(n), k = c.choose(n); c.log("Set(%d, xs[%d])", k, i); int v = m[i]; xs.Set(k, xs.Get(i)); m[k] = v; break; }
	case 13: { if (!n) break; int i = c.choose(n); c.log("Remove(xs[%d])", i); int v = m[i]; vint at = idx<T>(m, v); MC_CHECK(xs.Remove(xs.Get(i)), "Remove returned false"); m.erase(m.begin() + at); break; }
	}
	c.step();
}

// a list whose storage went through growing and shrinking before the explored operations
template<typename T> void prepare(Ctx& c, List<T>& xs, Seq& m, int maxPeak)
{
	int peak = c.choose(maxPeak + 1); for (int i = 0; i < peak; i++) { xs.Add(El<T>::make(i % 5 == 4 ? 1 : i)); m.push_back(i % 5 == 4 ? 1 : i); }
	int how = c.choose(4); int drop = how ? c.choose(peak + 1) : 0;
	if (how && !drop) return;
	c.log("%d elements, then drop %d (way %d)", peak, drop, how);
	if (how == 1) for (int i = 0; i < drop; i++) { xs.RemoveAt(xs.Count() - 1); m.pop_back(); }
	if (how == 2) for (int i = 0; i < drop; i++) { xs.RemoveAt(0); m.erase(m.begin()); }
	if (how == 3) { int at = (peak - drop) / 2; xs.RemoveRange(at, drop); m.erase(m.begin() + at, m.begin() + at + drop); }
	c.step(peak + drop);
}

template<typename T> void prepared(Ctx& c, int maxPeak, int depth)
{
	{
		List<T> xs; Seq m; prepare(c, xs, m, maxPeak);
		observe(xs, m, "after preparation", false); checkLive<T>((long)m.size(), "after preparation");
		for (int d = 0; d < depth; d++)
		{
			listOp(c, xs, m, 7 + d);
			checkLive<T>((long)m.size(), "after the operation");
			observe(xs, m, "after the operation", d + 1 == depth);
			c.state(mc::hashSeq(m));
		}
		rangeErrors(xs, (vint)m.size());
	}
	checkLive<T>(0, "after destruction");
}
MC_SCENARIO(list_prepared_tracked, 64, 3) { prepared<Tracked>(c, c.bound(26, 40), 1); }
MC_SCENARIO(list_prepared2_tracked, 64, 4) { prepared<Tracked>(c, c.bound(7, 13), 2); }
MC_SCENARIO(list_prepared_placed, 64, 3) { prepared<Placed>(c, c.bound(20, 40), 1); }
MC_SCENARIO(list_prepared2_int, 64, 4) { prepared<int>(c, c.bound(5, 10), 2); }
MC_SCENARIO(list_prepared2_wstring, 64, 4) { prepared<WString>(c, c.bound(5, 9), 2); }

template<typename T> void fromEmpty(Ctx& c, int depth)
{
	{
		List<T> xs; Seq m;
		for (int d = 0; d < depth; d++)
		{
			listOp(c, xs, m, d);
			checkLive<T>((long)m.size(), "after the operation");
			observe(xs, m, "after the operation");
			c.state(mc::hashSeq(m));
		}
	}
	checkLive<T>(0, "after destruction");
}
MC_SCENARIO(list_histories_tracked, 64, 4) { fromEmpty<Tracked>(c, c.bound(4, 5)); }
MC_SCENARIO(list_histories_placed, 32, 4) { fromEmpty<Placed>(c, c.bound(3, 4)); }
MC_SCENARIO(list_histories_int, 64, 4) { fromEmpty<int>(c, c.bound(4, 5)); }
MC_SCENARIO(list_histories_wstring, 32, 4) { fromEmpty<WString>(c, c.bound(3, 4)); }

// sizes far beyond the explored histories: grow one by one to N at one end or the middle, shrink again
MC_SCENARIO(list_growth, 16, 2)
{
	int n = c.choose(c.bound(80, 400)), in = c.choose(3), out = c.choose(3); c.log("grow to %d (way %d), shrink (way %d)", n, in, out);
	{
		List<Tracked> xs; Seq m;
		for (int i = 0; i < n; i++) { int at = in == 0 ? i : in == 1 ? 0 : i / 2; xs.Insert(at, Tracked(i)); m.insert(m.begin() + at, i); }
		sameSeq(xs, m, "after growing"); checkLive<Tracked>(n, "after growing");
		while (!m.empty())
		{
			int at = out == 0 ? (int)m.size() - 1 : out == 1 ? 0 : (int)m.size() / 2; xs.RemoveAt(at); m.erase(m.begin() + at); c.step();
			checkLive<Tracked>((long)m.size(), "while shrinking");
			if (m.size() < 24 || m.size() % 7 == 0) sameSeq(xs, m, "while shrinking");
		}
		c.state(n * 9 + in * 3 + out);
	}
	checkLive<Tracked>(0, "after destruction");
}

// large lists: one operation at every characteristic place
template<typename T> void large(Ctx& c, int top)
{
	int n = bigSize(c, 30, top); int op = c.choose(8), at = c.choose(6);
	{
		List<T> xs; Seq m; for (int i = 0; i < n; i++) { xs.Add(El<T>::make(i % 670)); m.push_back(i % 670); } c.step(n);
		int p[] = { 0, 1, n / 2, n - 2, n - 1, n }; int i = p[at]; c.log("%d elements, operation %d at %d", n, op, i);
		switch (op)
		{
		case 0: MC_CHECK(xs.Insert(i, El<T>::make(7)) == i, "Insert returned a wrong index"); m.insert(m.begin() + i, 7); break;
		case 1: { T v = xs.Get(n / 3); xs.Insert(i, xs.Get(n / 3)); m.insert(m.begin() + i, m[n / 3]); break; }
		case 2: if (i == n) break; xs.RemoveAt(i); m.erase(m.begin() + i); break;
		case 3: xs.RemoveRange(i, n - i); m.erase(m.begin() + i, m.end()); break;
		case 4: xs.RemoveRange(0, i); m.erase(m.begin(), m.begin() + i); break;
		case 5: { int k = std::min(n - i, n / 2); xs.RemoveRange(i, k); m.erase(m.begin() + i, m.begin() + i + k); for (int j = 0; j < 5; j++) { xs.Insert(std::min(i, (int)m.size()), El<T>::make(j)); m.insert(m.begin() + std::min(i, (int)m.size()), j); } break; }
		case 6: { List<T> o(std::move(xs)); sameSeq(xs, {}, "moved-from list"); xs = std::move(o); for (int j = 0; j < at; j++) { xs.Add(El<T>::make(j)); m.push_back(j); } break; }
		case 7: { Array<T> a(n); for (int j = 0; j < n; j++) a[j] = xs[j]; a.Resize(n + at * 7); for (int j = n; j < n + at * 7; j++) a[j] = El<T>::make(3); a.Resize(i); Seq r(m.begin(), m.begin() + std::min(i, n)); r.resize(i, 3); sameSeq(a, r, "large array"); break; }
		}
		c.step(); sameSeq(xs, m, "large list"); checkLive<T>((long)m.size(), "large list");
		for (int v : { 0, 1, n / 2, 669, 671 }) { vint e = idx<T>(m, v); T k = El<T>::make(v % 676); if (v < 676) MC_CHECK(xs.IndexOf(k) == e && xs.Contains(k) == (e != -1), "IndexOf(%d) in a list of %zu", v, m.size()); }
		rangeErrors(xs, (vint)m.size()); xs.Clear(); sameSeq(xs, {}, "cleared large list"); checkLive<T>(0, "cleared large list"); c.state(mc::mix(n * 8 + op, at));
	}
	checkLive<T>(0, "after destruction");
}
MC_SCENARIO(large_int, 32, 2) { large<int>(c, c.bound(5000, 70000)); }
MC_SCENARIO(large_tracked, 32, 2) { large<Tracked>(c, c.bound(1100, 10100)); }
MC_SCENARIO(large_placed, 32, 2) { large<Placed>(c, c.bound(1100, 10100)); }
MC_SCENARIO(large_wstring, 32, 2) { large<WString>(c, c.bound(1100, 10100)); }
// arguments at the ends of the range of integers
MC_SCENARIO(extreme_arguments, 4, 2)
{
	List<Tracked> xs; int n = c.choose(4); for (int i = 0; i < n; i++) xs.Add(Tracked(i)); const vint M = std::numeric_limits<vint>::max(), N = std::numeric_limits<vint>::min(); vint v = c.pick({ M, N, M - 1, N + 1, (vint)0x7fffffff, (vint)0x80000000, (vint)0x100000000, (vint)-0x100000000 }); c.log("%d elements, argument %ld", n, (long)v); Tracked t(9);
	MC_CHECK(raises([&] { xs.Insert(v, t); }) && raises([&] { xs.RemoveAt(v); }) && raises([&] { xs.Set(v, t); }) && raises([&] { xs.RemoveRange(v, 0); }), "an operation at %ld did not raise", (long)v);
	for (int i = 0; i <= n; i++) MC_CHECK(raises([&] { xs.RemoveRange(i, v); }), "RemoveRange(%d, %ld) did not raise", i, (long)v);
	MC_CHECK(xs.Count() == n, "Count"); rangeErrors(xs, n); if (v < 0) { MC_CHECK(raises([&] { Array<Tracked> a(v); }), "Array(%ld) did not raise", (long)v); Array<Tracked> a(2); MC_CHECK(raises([&] { a.Resize(v); }) && a.Count() == 2, "Resize(%ld) did not raise", (long)v); } c.step(); c.state(mc::mix(n, v));
}
// two lists exchanging their content by moves
MC_SCENARIO(list_moves, 32, 4)
{
	{
		const int N = 2; List<Tracked>* xs[N]; Seq m[N]; for (auto& p : xs) p = new List<Tracked>;
		struct Cleanup { List<Tracked>** p; ~Cleanup() { delete p[0]; delete p[1]; } } cleanup{ xs };
		int depth = c.bound(5, 7);
		for (int d = 0; d < depth; d++)
		{
			int i = c.choose(N); auto& X = *xs[i]; auto& M = m[i]; int j = 1 - i;
			switch (c.choose(6))
			{
			case 0: c.log("a%d.Add(%d)", i, d); X.Add(Tracked(d)); M.push_back(d); break;
			case 1: c.log("a%d.Insert(0, %d)", i, d); X.Insert(0, Tracked(d)); M.insert(M.begin(), d); break;
			case 2: if (M.empty()) break; c.log("a%d.RemoveAt(0)", i); X.RemoveAt(0); M.erase(M.begin()); break;
			case 3: c.log("a%d = move(a%d)", i, j); X = std::move(*xs[j]); M = m[j]; m[j].clear(); break;
			case 4: { c.log("a%d = new list moved from a%d", i, i); auto p = new List<Tracked>(std::move(X)); MC_CHECK(X.Count() == 0, "a list is not empty after its content moved away"); delete xs[i]; xs[i] = p; break; }
			case 5: { c.log("move a%d away and back", i); List<Tracked> t(std::move(X)); sameSeq(X, {}, "moved-from list"); X.Add(Tracked(5)); sameSeq(X, { 5 }, "moved-from list after Add"); X = std::move(t); sameSeq(t, {}, "moved-from list"); break; }
			}
			c.step();
			for (int k = 0; k < N; k++) sameSeq(*xs[k], m[k], k ? "a1" : "a0");
			checkLive<Tracked>((long)(m[0].size() + m[1].size()), "after the operation");
			c.state(mc::hashSeq(m[0], mc::hashSeq(m[1])));
		}
	}
	checkLive<Tracked>(0, "after destruction");
}

// ---- arrays ----
template<typename T> void arrayHistory(Ctx& c, int maxSize, int depth)
{
	{
		int way = c.choose(3); int n = c.choose(maxSize + 1); Seq m; Array<T>* xs;
		if (way == 0) { c.log("Array(%d)", n); xs = new Array<T>(n); m.assign(n, Tracked::Default); }
		else if (way == 1) { c.log("Array(buffer, %d)", n); std::vector<T> b; b.reserve(n + 1); for (int i = 0; i < n; i++) { b.push_back(El<T>::make(i)); m.push_back(i); } xs = new Array<T>(b.data(), n); }
		else { c.log("Array(), Resize(%d)", n); xs = new Array<T>; xs->Resize(n); m.assign(n, Tracked::Default); }
		if (!El<T>::tracked) for (int i = 0; i < n; i++) { (*xs)[i] = El<T>::make(i); m[i] = i; }
		struct Cleanup { Array<T>*& p; ~Cleanup() { delete p; } } cleanup{ xs };
		observe(*xs, m, "a new array"); checkLive<T>(n, "a new array");
		for (int d = 0; d < depth; d++)
		{
			n = (int)m.size();
			switch (c.choose(7))
			{
			case 0: { int k = c.range(-1, maxSize + 2); c.log("Resize(%d)", k);
				if (k < 0) MC_CHECK(raises([&] { xs->Resize(k); }), "Resize(%d) did not raise", k);
				else { xs->Resize(k); MC_CHECK(xs->Count() == k, "Resize(%d) led to Count %ld", k, (long)xs->Count()); m.resize(k, Tracked::Default); if (!El<T>::tracked) for (int i = n; i < k; i++) { (*xs)[i] = El<T>::make(i); m[i] = i; } } break; }
			case 1: { int i = c.range(-1, n); c.log("Set(%d, copy %d)", i, 20 + d); T v = El<T>::make(20 + d); if (i < 0 || i >= n) MC_CHECK(raises([&] { xs->Set(i, v); }), "Set(%d) did not raise", i); else { MC_CHECK(xs->Set(i, v), "Set returned false"); m[i] = 20 + d; } break; }
			case 2: { int i = c.range(-1, n); c.log("Set(%d, move %d)", i, 20 + d); if (i < 0 || i >= n) MC_CHECK(raises([&] { xs->Set(i, El<T>::make(20 + d)); }), "Set(%d) did not raise", i); else { MC_CHECK(xs->Set(i, El<T>::make(20 + d)), "Set returned false"); m[i] = 20 + d; } break; }
			case 3: { if (!n) break; int i = c.choose(n), k = c.choose(n); c.log("Set(%d, xs[%d])", i, k); xs->Set(i, xs->Get(k)); m[i] = m[k]; break; }
			case 4: { c.log("moved into a new array"); auto p = new Array<T>(std::move(*xs)); MC_CHECK(xs->Count() == 0, "an array is not empty after its content moved away"); delete xs; xs = p; break; }
			case 5: { int k = c.choose(3); c.log("target of %d elements = move(xs)", k); auto p = new Array<T>(k); *p = std::move(*xs); MC_CHECK(xs->Count() == 0, "an array is not empty after its content moved away"); xs->Resize(2); delete xs; xs = p; break; }
			case 6: { if (!n) break; int i = c.choose(n); c.log("xs[%d] = %d", i, 30 + d); (*xs)[i] = El<T>::make(30 + d); m[i] = 30 + d; break; }
			}
			c.step();
			observe(*xs, m, "after the operation"); checkLive<T>((long)m.size(), "after the operation");
			c.state(mc::hashSeq(m));
		}
		rangeErrors(*xs, (vint)m.size());
	}
	checkLive<T>(0, "after destruction");
}
MC_SCENARIO(array_tracked, 64, 4) { arrayHistory<Tracked>(c, c.bound(4, 6), 3); }
MC_SCENARIO(array_int, 64, 4) { arrayHistory<int>(c, c.bound(3, 5), 3); }
MC_SCENARIO(array_placed, 32, 4) { arrayHistory<Placed>(c, c.bound(3, 4), 2); }
MC_SCENARIO(array_wstring, 32, 4) { arrayHistory<WString>(c, c.bound(3, 4), c.bound(2, 3)); }
MC_SCENARIO(array_resize_chain, 32, 3)
{
	{
		Array<Tracked> xs; Seq m; int depth = c.bound(3, 4);
		for (int d = 0; d < depth; d++)
		{
			int k = c.choose(c.bound(20, 24)); c.log("Resize(%d)", k); xs.Resize(k); m.resize(k, Tracked::Default);
			sameSeq(xs, m, "after Resize"); for (int i = 0; i < k; i++) { xs[i] = Tracked(100 * d + i); m[i] = 100 * d + i; }
			sameSeq(xs, m, "after writing"); checkLive<Tracked>(k, "after Resize"); c.step(); c.state(mc::hashSeq(m));
		}
	}
	checkLive<Tracked>(0, "after destruction");
}
// elements that are copied as they are, but have a default value
struct Defaulted { int v = 4711; short w = 12; bool operator==(const Defaulted& o)const { return v == o.v; } };
static_assert(std::is_trivially_copyable_v<Defaulted> && !std::is_trivially_default_constructible_v<Defaulted>);
MC_SCENARIO(array_defaults, 32, 4)
{
	int n = c.choose(c.bound(12, 24)), depth = c.bound(3, 4); c.log("Array(%d)", n);
	{ void* dirty = malloc(sizeof(Defaulted) * 40); memset(dirty, 0x5A, sizeof(Defaulted) * 40); free(dirty); }
	Array<Defaulted> xs(n); Seq m(n, 4711);
	for (int d = 0; d < depth; d++)
	{
		for (int i = 0; i < (int)m.size(); i++) MC_CHECK(xs[i].v == m[i] && xs[i].w == 12, "element %d of %zu is %d, expected %d", i, m.size(), xs[i].v, m[i]);
		for (int i = 0; i < (int)m.size(); i++) { xs[i].v = d * 100 + i; m[i] = d * 100 + i; }
		int k = c.choose(c.bound(12, 24)); c.log("Resize(%d)", k); xs.Resize(k); m.resize(k, 4711); MC_CHECK(xs.Count() == k, "Count"); c.step(); c.state(mc::hashSeq(m));
	}
	for (int i = 0; i < (int)m.size(); i++) MC_CHECK(xs[i].v == m[i] && xs[i].w == 12, "element %d of %zu is %d, expected %d", i, m.size(), xs[i].v, m[i]);
}
MC_SCENARIO(array_negative, 1, 1)
{
	c.step(2); c.state(1);
	MC_CHECK(raises([] { Array<Tracked> xs(-1); }), "Array(-1) did not raise");
	MC_CHECK(raises([] { Tracked t; Array<Tracked> xs(&t, -1); }), "Array(buffer, -1) did not raise");
}

// ---- owning elements: searched by raw pointer, released as soon as they leave ----
struct Item { int id; static int live; Item(int i) :id(i) { live++; } ~Item() { live--; } };
int Item::live = 0;
MC_SCENARIO(list_of_ptr, 32, 4)
{
	Item::live = 0;
	{
		List<Ptr<Item>> xs; std::vector<Item*> m; int depth = c.bound(5, 6);
		for (int d = 0; d < depth; d++)
		{
			int n = (int)m.size();
			switch (c.choose(7))
			{
			case 0: { c.log("Add(new)"); auto p = Ptr<Item>(new Item(d)); xs.Add(p); m.push_back(p.Obj()); break; }
			case 1: { c.log("Insert(0, new)"); auto p = Ptr<Item>(new Item(d)); auto o = p.Obj(); xs.Insert(0, std::move(p)); MC_CHECK(!p, "moving into a list left the source"); m.insert(m.begin(), o); break; }
			case 2: { if (!n) break; int i = c.choose(n); c.log("Remove(raw %d)", i); Item* k = m[i]; auto at = std::find(m.begin(), m.end(), k); MC_CHECK(xs.Remove(k), "Remove(raw) returned false"); m.erase(at); break; }
			case 3: { if (!n) break; int i = c.choose(n); c.log("RemoveAt(%d)", i); xs.RemoveAt(i); m.erase(m.begin() + i); break; }
			case 4: { if (!n) break; int i = c.choose(n); c.log("Set(%d, new)", i); auto p = Ptr<Item>(new Item(d)); m[i] = p.Obj(); xs.Set(i, p); break; }
			case 5: { if (!n) break; int i = c.choose(n); c.log("Insert(0, xs[%d])", i); auto o = m[i]; xs.Insert(0, xs.Get(i)); m.insert(m.begin(), o); break; }
			case 6: c.log("Clear"); xs.Clear(); m.clear(); break;
			}
			c.step();
			MC_CHECK(xs.Count() == (vint)m.size(), "Count %ld, expected %zu", (long)xs.Count(), m.size());
			std::vector<Item*> u = m; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
			MC_CHECK(Item::live == (int)u.size(), "%d objects alive, the list refers to %zu", Item::live, u.size());
			for (size_t i = 0; i < m.size(); i++)
			{
				MC_CHECK(xs[(vint)i].Obj() == m[i], "element %zu differs", i);
				MC_CHECK(xs.IndexOf(m[i]) == std::find(m.begin(), m.end(), m[i]) - m.begin(), "IndexOf(raw pointer) of element %zu", i);
			}
			MC_CHECK(!xs.Contains((Item*)nullptr), "Contains(nullptr)");
			Seq ids; for (auto p : m) ids.push_back(p->id); c.state(mc::hashSeq(ids));
		}
	}
	MC_CHECK(Item::live == 0, "%d objects never released", Item::live);
}
// a list or an array replaced by the one that one of its own elements owns
template<template<typename> class C> struct Tree { Tracked id; C<Ptr<Tree>> kids; Tree(int v) :id(v) {} };
template<template<typename> class C> void put(C<Ptr<Tree<C>>>& xs, int n, int base)
{
	for (int i = 0; i < n; i++) { auto p = Ptr(new Tree<C>(base + i)); if constexpr (std::is_same_v<C<int>, Array<int>>) { xs.Resize(i + 1); xs[i] = p; } else xs.Add(p); }
}
template<template<typename> class C> void replacedFromInside(Ctx& c)
{
	{
		int n = 1 + c.choose(c.bound(4, 6)), i = c.choose(n), m = c.choose(c.bound(4, 6)), deep = c.choose(2);
		c.log("a collection of %d objects replaced by moving the %d ones inside object %d, level %d", n, m, i, deep + 1);
		Tree<C> root(900); put<C>(root.kids, n, 0); auto* at = root.kids[i].Obj(); if (deep) { put<C>(at->kids, 1, 50); at = at->kids[0].Obj(); } put<C>(at->kids, m, 100);
		root.kids = std::move(at->kids); c.step();
		MC_CHECK(root.kids.Count() == m, "Count %ld, expected %d", (long)root.kids.Count(), m);
		for (int k = 0; k < m; k++) MC_CHECK(root.kids[k]->id.v == 100 + k, "element %d is %d", k, root.kids[k]->id.v);
		checkLive<Tracked>(m + 1, "after the move"); c.state(mc::mix(n, mc::mix(m, i * 2 + deep)));
	}
	checkLive<Tracked>(0, "after destruction");
}
MC_SCENARIO(list_from_inside, 8, 4) { replacedFromInside<List>(c); }
MC_SCENARIO(array_from_inside, 8, 4) { replacedFromInside<Array>(c); }
// searching goes by the equality of the elements, not by their representation
struct Padded { char a; int b; long note; Padded(int v = 0, long n = 0) { memset((void*)this, n ? 0x55 : 0xAA, sizeof(*this)); a = (char)v; b = v * 2; note = n; } bool operator==(const Padded& o)const { return a == o.a && b == o.b; } };
MC_SCENARIO(by_equality, 16, 3)
{
	static const double ds[] = { 0.0, -0.0, 1.5, __builtin_nan(""), __builtin_inf() }; int n = c.choose(c.bound(5, 6)), p = c.choose(5); List<double> xs; List<Padded> ys; int f = -1, g = -1; c.log("%d elements, probe %d", n, p);
	for (int i = 0; i < n; i++) { int k = c.choose(5); xs.Add(ds[k]); ys.Add(Padded(k / 2, i + 1)); if (f < 0 && ds[k] == ds[p]) f = i; if (g < 0 && k / 2 == p / 2) g = i; }
	Array<double> as(n); Array<Padded> bs(n); for (int i = 0; i < n; i++) { as[i] = xs[i]; bs[i] = ys[i]; }
	MC_CHECK(xs.IndexOf(ds[p]) == f && xs.Contains(ds[p]) == (f >= 0) && as.IndexOf(ds[p]) == f && as.Contains(ds[p]) == (f >= 0), "searching %f: found at %ld, expected %d", ds[p], (long)xs.IndexOf(ds[p]), f);
	MC_CHECK(ys.IndexOf(Padded(p / 2)) == g && ys.Contains(Padded(p / 2)) == (g >= 0) && bs.IndexOf(Padded(p / 2)) == g, "searching a structure: found at %ld, expected %d", (long)ys.IndexOf(Padded(p / 2)), g);
	MC_CHECK(xs.Remove(ds[p]) == (f >= 0) && xs.Count() == n - (f >= 0) && ys.Remove(Padded(p / 2)) == (g >= 0), "Remove"); for (int i = 0; g >= 0 && i < n - 1; i++) MC_CHECK(ys[i].note == (i < g ? i : i + 1) + 1, "another element was removed"); c.step(8); c.state(mc::mix(n * 25 + p, f * 10 + g));
}
