// P14: a Dictionary is a map: every history agrees with std::map.
#include "coll.h"
typedef std::map<int, int> Map;

template<typename K, typename V> void observe(Dictionary<K, V>& d, const Map& m, int keys, const char* what)
{
	MC_CHECK(d.Count() == (vint)m.size(), "%s: Count %ld, expected %zu", what, (long)d.Count(), m.size());
	Seq ks, vs; for (auto& p : m) { ks.push_back(p.first); vs.push_back(p.second); }
	sameSeq(d.Keys(), ks, "Keys"); sameSeq(d.Values(), vs, "Values");
	for (int k = 0; k < keys; k++)
	{
		K key = El<K>::make(k); auto it = m.find(k);
		MC_CHECK(d.Keys().Contains(key) == (it != m.end()), "%s: key %d presence", what, k);
		const Dictionary<K, V>& cd = d;
		if (it != m.end()) MC_CHECK(El<V>::read(d.Get(key)) == it->second && El<V>::read(cd[key]) == it->second, "%s: value of key %d is %d, expected %d", what, k, El<V>::read(d.Get(key)), it->second);
		else MC_CHECK(raises([&] { (void)&d.Get(key); }) && raises([&] { (void)&cd[key]; }), "%s: reading the missing key %d did not raise", what, k);
	}
	size_t i = 0; auto e = d.CreateEnumerator(); bool ok = true;
	while (e->Next()) { if (i >= ks.size() || e->Index() != (vint)i || El<K>::read(e->Current().key) != ks[i] || El<V>::read(e->Current().value) != vs[i]) { ok = false; break; } i++; }
	delete e; MC_CHECK(ok && i == ks.size(), "%s: enumeration differs at %zu", what, i);
}
template<typename K, typename V> long liveOf(size_t n) { return (long)((El<K>::tracked ? n : 0) + (El<V>::tracked ? n : 0)); }
template<typename K, typename V> void lives(size_t n, const char* what) { if (El<K>::tracked || El<V>::tracked) MC_CHECK((mc::Registry::live() == liveOf<K, V>(n)), "%s: %ld live elements for %zu entries", what, mc::Registry::live(), n); }

template<typename K, typename V> void mapOp(Ctx& c, Dictionary<K, V>& d, Map& m, int keys, int fresh, bool forms)
{
	switch (c.choose(9))
	{
	case 0: // Add in every form
	{
		int k = c.choose(keys), form = forms ? c.choose(6) : (k + fresh) % 6; c.log("Add(%d, %d) form %d", k, fresh, form); bool has = m.count(k);
		auto run = [&]
		{
			K key = El<K>::make(k); V v = El<V>::make(fresh);
			switch (form)
			{
			case 0: return d.Add(key, v);
			case 1: return d.Add(key, std::move(v));
			case 2: return d.Add(std::move(key), v);
			case 3: return d.Add(std::move(key), std::move(v));
			case 4: { Pair<K, V> p(key, v); bool r = d.Add(p); MC_CHECK(El<K>::read(p.key) == k && El<V>::read(p.value) == fresh, "Add(const Pair&) changed its argument"); return r; }
			default: return d.Add(Pair<K, V>(key, v));
			}
		};
		if (has) MC_CHECK(raises(run), "adding the existing key %d did not raise", k);
		else { MC_CHECK(run(), "Add returned false"); m[k] = fresh; }
		break;
	}
	case 1:
	{
		int k = c.choose(keys), form = forms ? c.choose(4) : (k + fresh) % 4; c.log("Set(%d, %d) form %d", k, fresh, form);
		K key = El<K>::make(k); V v = El<V>::make(fresh); bool r;
		switch (form) { case 0: r = d.Set(key, v); break; case 1: r = d.Set(key, std::move(v)); break; case 2: r = d.Set(std::move(key), v); break; default: r = d.Set(std::move(key), std::move(v)); }
		MC_CHECK(r, "Set returned false"); m[k] = fresh; break;
	}
	case 2: { int k = c.choose(keys); c.log("Remove(%d)", k); K key = El<K>::make(k); bool has = m.count(k); MC_CHECK(d.Remove(key) == has, "Remove(%d) returned %d", k, !has); m.erase(k); break; }
	case 3: c.log("Clear"); MC_CHECK(d.Clear(), "Clear returned false"); m.clear(); break;
	// arguments referring to the dictionary's own content
	case 4: { if (m.empty()) break; int i = c.choose((int)m.size()), k = c.choose(keys); c.log("Set(%d, Values()[%d])", k, i); K key = El<K>::make(k); auto it = m.begin(); std::advance(it, i); int v = it->second; d.Set(key, d.Values()[i]); m[k] = v; break; }
	case 5: { if (m.empty()) break; int i = c.choose((int)m.size()); c.log("Remove(Keys()[%d])", i); auto it = m.begin(); std::advance(it, i); MC_CHECK(d.Remove(d.Keys()[i]), "Remove of an own key failed"); m.erase(it); break; }
	case 6: { if (m.empty()) break; int i = c.choose((int)m.size()); c.log("Set(Keys()[%d], %d)", i, fresh); auto it = m.begin(); std::advance(it, i); d.Set(d.Keys()[i], El<V>::make(fresh)); it->second = fresh; break; }
	case 7: { c.log("move away and back"); Dictionary<K, V> t(std::move(d)); observe(d, {}, keys, "moved-from"); observe(t, m, keys, "moved-to"); d.Add(El<K>::make(0), El<V>::make(1)); observe(d, { {0, 1} }, keys, "moved-from, then used"); d = std::move(t); observe(t, {}, keys, "moved-from"); break; }
	case 8: { if (m.empty()) break; int i = c.choose((int)m.size()), k = c.choose(keys); if (m.count(k)) break; c.log("Add(%d, Values()[%d])", k, i); auto it = m.begin(); std::advance(it, i); int v = it->second; K key = El<K>::make(k); d.Add(key, d.Values()[i]); m[k] = v; break; }
	}
	c.step();
}
inline uint64_t hashMap(const Map& m) { uint64_t h = 3; for (auto& p : m) h = mc::mix(mc::mix(h, p.first), p.second); return h; }
template<typename K, typename V> void history(Ctx& c, int keys, int depth, bool forms = true)
{
	{
		Dictionary<K, V> d; Map m;
		for (int i = 0; i < depth; i++) { mapOp(c, d, m, keys, 10 + i, forms); observe(d, m, keys, "after the operation"); lives<K, V>(m.size(), "after the operation"); c.state(hashMap(m)); }
	}
	lives<K, V>(0, "after destruction");
}
MC_SCENARIO(histories_tracked, 64, 4) { history<Tracked, Tracked>(c, 3, c.bound(4, 5), false); }
MC_SCENARIO(histories_all_forms, 64, 4) { history<Tracked, Tracked>(c, 3, c.bound(3, 4)); }
MC_SCENARIO(histories_int, 64, 4) { history<int, int>(c, 4, c.bound(3, 4)); }
MC_SCENARIO(histories_strings, 32, 4) { history<WString, WString>(c, 3, c.bound(3, 4)); }
MC_SCENARIO(histories_mixed, 32, 4) { history<int, Tracked>(c, 3, c.bound(3, 4)); }
MC_SCENARIO(histories_placed, 32, 4) { history<Placed, Placed>(c, 3, c.bound(3, 4), false); }

// larger dictionaries in every insertion order, then one operation of every kind
MC_SCENARIO(orders, 64, 4)
{
	int n = 1 + c.choose(c.bound(6, 7)); 
	{
		Dictionary<Tracked, Tracked> d; Map m; std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
		while (!left.empty()) { int i = c.choose((int)left.size()); int k = left[i]; left.erase(left.begin() + i); c.log("Set(%d)", k); d.Set(Tracked(k), Tracked(50 + k)); m[k] = 50 + k; c.step(); }
		observe(d, m, n + 1, "after adding");
		int k = c.choose(n + 1); bool has = m.count(k); c.log("Remove(%d)", k); MC_CHECK(d.Remove(Tracked(k)) == has, "Remove(%d)", k); m.erase(k);
		observe(d, m, n + 1, "after removing"); lives<Tracked, Tracked>(m.size(), "after removing"); c.state(hashMap(m));
	}
	lives<Tracked, Tracked>(0, "after destruction");
}
MC_SCENARIO(growth, 16, 2)
{
	int n = c.choose(c.bound(40, 120)), order = c.choose(3); c.log("%d entries, order %d", n, order);
	{
		Dictionary<int, Tracked> d; Map m;
		for (int i = 0; i < n; i++) { int k = order == 0 ? i : order == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2); d.Add(k, Tracked(k + 100)); m[k] = k + 100; c.step(); }
		observe(d, m, n + 1, "after adding");
		for (int i = 0; i < n; i++) { int k = order == 1 ? i : order == 0 ? n - 1 - i : (i + n / 2) % n; MC_CHECK(d.Remove(k), "Remove(%d)", k); m.erase(k); if (i % 5 == 0 || n - i < 12) observe(d, m, n + 1, "while removing"); lives<int, Tracked>(m.size(), "while removing"); c.step(); }
		c.state(n * 3 + order);
	}
}
template<typename V> void large(Ctx& c, int top)
{
	int n = bigSize(c, 30, top), order = c.choose(4), at = c.choose(6); int p[] = { 0, 1, n / 2, n - 2, n - 1, n }; int k = p[at]; c.log("%d entries, order %d, key %d", n, order, k);
	{
		Dictionary<int, V> d; Map m; auto val = [](int v) { return v % 670; };
		for (int i = 0; i < n; i++) { int x = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (int)((i * 7919l) % n); if (m.count(x)) { d.Set(x, El<V>::make(val(x + i))); } else d.Add(x, El<V>::make(val(x + i))); m[x] = val(x + i); }
		auto check = [&](const char* what) { MC_CHECK(d.Count() == (vint)m.size() && d.Keys().Count() == d.Count() && d.Values().Count() == d.Count(), "%s: Count %ld, expected %zu", what, (long)d.Count(), m.size()); vint i = 0; for (auto& x : m) { MC_CHECK(d.Keys()[i] == x.first && El<V>::read(d.Values()[i]) == x.second && El<V>::read(d[x.first]) == x.second && El<V>::read(d.Get(x.first)) == x.second && d.Keys().IndexOf(x.first) == i, "%s: entry %ld (key %d) differs", what, (long)i, x.first); i++; } };
		check("after adding"); c.step(n); bool in = m.count(k) > 0; MC_CHECK(d.Keys().Contains(k) == in, "Contains(%d)", k);
		if (in) MC_CHECK(raises([&] { d.Add(k, El<V>::make(5)); }), "adding an existing key did not raise"); else MC_CHECK(raises([&] { (void)d.Get(k); }), "reading a missing key did not raise"); check("after an error");
		MC_CHECK(d.Remove(k) == in, "Remove(%d)", k); m.erase(k); check("after Remove"); MC_CHECK(!d.Remove(k), "Remove(%d) twice", k); d.Set(k, El<V>::make(3)); m[k] = 3; check("after Set"); d.Set(k, El<V>::make(4)); m[k] = 4; check("after Set twice");
		Dictionary<int, V> e(std::move(d)); MC_CHECK(d.Count() == 0, "moved-from dictionary"); d = std::move(e); check("after moving"); d.Clear(); m.clear(); check("after Clear"); c.step(8); c.state(mc::mix(n * 4 + order, at));
	}
	lives<int, V>(0, "after destruction");
}
MC_SCENARIO(large_tracked, 32, 2) { large<Tracked>(c, c.bound(2100, 5000)); }
MC_SCENARIO(large_placed, 32, 2) { large<Placed>(c, c.bound(550, 5000)); }
MC_SCENARIO(large_int, 32, 2) { large<int>(c, c.bound(5000, 20000)); }
MC_SCENARIO(large_strings, 32, 2) { large<WString>(c, c.bound(1100, 5000)); }
// keys owned by shared pointers are looked up by raw pointer
struct Item { static int live; Item() { live++; } ~Item() { live--; } };
int Item::live = 0;
MC_SCENARIO(ptr_keys, 16, 3)
{
	Item::live = 0;
	{
		const int N = 3; Ptr<Item> p[N]; for (auto& x : p) x = Ptr<Item>(new Item); Dictionary<Ptr<Item>, int> d; std::map<Item*, int> m; int depth = c.bound(5, 6);
		for (int i = 0; i < depth; i++)
		{
			int k = c.choose(N);
			switch (c.choose(3))
			{
			case 0: c.log("Set(p%d, %d)", k, i); d.Set(p[k], i); m[p[k].Obj()] = i; break;
			case 1: c.log("Remove(p%d)", k); MC_CHECK(d.Remove(p[k].Obj()) == (m.count(p[k].Obj()) > 0), "Remove"); m.erase(p[k].Obj()); break;
			case 2: c.log("Add(p%d, %d)", k, i); if (m.count(p[k].Obj())) MC_CHECK(raises([&] { d.Add(p[k], i); }), "adding an existing key did not raise"); else { d.Add(p[k], i); m[p[k].Obj()] = i; } break;
			}
			c.step(); MC_CHECK(d.Count() == (vint)m.size(), "Count");
			uint64_t h = 1; for (int j = 0; j < N; j++) { auto it = m.find(p[j].Obj()); MC_CHECK(d.Keys().Contains(p[j].Obj()) == (it != m.end()), "presence of p%d", j); if (it != m.end()) MC_CHECK(d[p[j].Obj()] == it->second, "value of p%d", j); h = mc::mix(h, it == m.end() ? 99 : it->second); }
			c.state(h);
		}
		for (auto& x : p) x = nullptr;
		MC_CHECK(Item::live == (int)m.size(), "%d keys alive, expected %zu", Item::live, m.size());
	}
	MC_CHECK(Item::live == 0, "keys never released");
}
// keys next to the limits of their types
template<typename K> void extremes(Ctx& c, int len)
{
	auto& v = extremesOf<K>(); int N = (int)v.size(), n = c.choose(len + 1); Dictionary<K, int> xs; std::map<int, int> m;
	for (int i = 0; i < n; i++) { int k = c.choose(N); bool r = xs.Set(v[k], i); MC_CHECK(r, "Set returned false"); m[k] = i; c.step(); }
	MC_CHECK(xs.Count() == (vint)m.size(), "Count is %ld, expected %zu", (long)xs.Count(), m.size()); vint at = 0; uint64_t h = N; for (auto& x : m) { MC_CHECK(xs.Keys()[at] == v[x.first] && xs.Values()[at] == x.second, "entry %ld", (long)at); at++; h = mc::mix(h, x.first * 10 + x.second); } c.state(h);
	for (int k = 0; k < N; k++) { bool in = m.count(k); MC_CHECK(xs.Keys().Contains(v[k]) == in, "Contains(extreme %d)", k); if (in) MC_CHECK(xs[v[k]] == m[k] && xs.Get(v[k]) == m[k], "Get(extreme %d)", k); else MC_CHECK(raises([&] { xs.Get(v[k]); }), "Get(extreme %d) did not raise", k); }
	if (n) { auto k = m.begin()->first; MC_CHECK(xs.Remove(v[k]) && !xs.Remove(v[k]) && xs.Count() == (vint)m.size() - 1, "Remove(extreme %d)", k); }
}
MC_SCENARIO(extremes_vint, 64, 3) { extremes<vint>(c, c.bound(4, 6)); }
MC_SCENARIO(extremes_unsigned, 64, 3) { extremes<unsigned>(c, c.bound(4, 6)); }
MC_SCENARIO(extremes_double, 64, 3) { extremes<double>(c, c.bound(4, 6)); }
// replaced by the one that one of its own values owns
struct Tree { Tracked id; Dictionary<int, Ptr<Tree>> kids; Tree(int v) :id(v) {} };
MC_SCENARIO(from_inside, 8, 3)
{
	{
		int n = 1 + c.choose(c.bound(4, 6)), i = c.choose(n), m = c.choose(c.bound(4, 6));
		c.log("%d keys replaced by moving the %d keys inside value %d", n, m, i);
		Tree root(900); for (int k = 0; k < n; k++) root.kids.Add(k, Ptr(new Tree(k)));
		Tree* at = root.kids.Get(i).Obj(); for (int k = 0; k < m; k++) at->kids.Add(100 + k, Ptr(new Tree(100 + k)));
		root.kids = std::move(at->kids); c.step();
		MC_CHECK(root.kids.Count() == m && root.kids.Keys().Count() == m, "Count %ld, expected %d", (long)root.kids.Count(), m);
		for (int k = 0; k < m; k++) MC_CHECK(root.kids.Get(100 + k)->id.v == 100 + k, "the value of key %d is another one", k);
		checkLive<Tracked>(m + 1, "after the move"); c.state(mc::mix(n, mc::mix(m, i)));
	}
	checkLive<Tracked>(0, "after destruction");
}
