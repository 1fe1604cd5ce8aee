// P15: a Group maps every key to the list of its values in insertion order; empty keys do not exist.
#include "coll.h"
typedef std::map<int, Seq> Multi;
template<typename K, typename V> void observe(Group<K, V>& g, const Multi& m, int keys, const char* what)
{
	const Group<K, V>& cg = g; MC_CHECK(g.Count() == (vint)m.size(), "%s: Count %ld, expected %zu", what, (long)g.Count(), m.size());
	Seq ks, ek, ev; for (auto& p : m) { ks.push_back(p.first); for (int v : p.second) { ek.push_back(p.first); ev.push_back(v); } }
	sameSeq(g.Keys(), ks, "Keys");
	for (int k = 0; k < keys; k++)
	{
		K key = El<K>::make(k); auto it = m.find(k); MC_CHECK(g.Contains(key) == (it != m.end()), "%s: Contains(%d)", what, k);
		if (it != m.end()) { sameSeq(g.Get(key), it->second, "values of a key"); sameSeq(cg[key], it->second, "values of a key"); }
		else MC_CHECK(raises([&] { (void)&g.Get(key); }) && raises([&] { (void)&cg[key]; }), "%s: reading the missing key %d did not raise", what, k);
		for (int v : { 10, 11, 12 }) { V val = El<V>::make(v); bool in = it != m.end() && std::count(it->second.begin(), it->second.end(), v) > 0; MC_CHECK(g.Contains(key, val) == in, "%s: Contains(%d, %d)", what, k, v); }
	}
	size_t n = 0; for (auto& p : m) sameSeq(g.GetByIndex((vint)n++), p.second, "values by index");
	for (vint i : { (vint)-1, (vint)m.size() }) MC_CHECK(raises([&] { (void)&g.GetByIndex(i); }), "%s: GetByIndex(%ld) did not raise", what, (long)i);
	size_t i = 0; auto e = g.CreateEnumerator(); bool ok = true;
	while (e->Next()) { if (i >= ek.size() || e->Index() != (vint)i || El<K>::read(e->Current().key) != ek[i] || El<V>::read(e->Current().value) != ev[i]) { ok = false; break; } i++; }
	delete e; MC_CHECK(ok && i == ek.size(), "%s: enumeration differs at %zu", what, i);
}
inline size_t entries(const Multi& m) { size_t n = 0; for (auto& p : m) n += p.second.size(); return n; }
template<typename K, typename V> void lives(const Multi& m, const char* what) { long e = (El<K>::tracked ? (long)m.size() : 0) + (El<V>::tracked ? (long)entries(m) : 0); if (El<K>::tracked || El<V>::tracked) MC_CHECK(mc::Registry::live() == e, "%s: %ld live elements, expected %ld", what, mc::Registry::live(), e); }
inline uint64_t hashMulti(const Multi& m) { uint64_t h = 5; for (auto& p : m) h = mc::hashSeq(p.second, mc::mix(h, p.first)); return h; }
template<typename K, typename V> void groupOp(Ctx& c, Group<K, V>& g, Multi& m, int keys, int step, bool forms)
{
	switch (c.choose(8))
	{
	case 0:
	{
		int k = c.choose(keys), v = 10 + c.choose(2), form = forms ? c.choose(6) : (k * 2 + v + step) % 6; c.log("Add(%d, %d) form %d", k, v, form); K key = El<K>::make(k); V val = El<V>::make(v); bool r;
		switch (form) { case 0: r = g.Add(key, val); break; case 1: r = g.Add(key, std::move(val)); break; case 2: r = g.Add(std::move(key), val); break; case 3: r = g.Add(std::move(key), std::move(val)); break; case 4: r = g.Add(Pair<K, V>(key, val)); break; default: { Pair<K, V> p(key, val); r = g.Add(p); MC_CHECK(El<K>::read(p.key) == k && El<V>::read(p.value) == v, "Add(const Pair&) changed its argument"); } }
		MC_CHECK(r, "Add returned false"); m[k].push_back(v); break;
	}
	case 1: { int k = c.choose(keys); c.log("Remove(%d)", k); K key = El<K>::make(k); bool has = m.count(k); MC_CHECK(g.Remove(key) == has, "Remove(%d) returned %d", k, !has); m.erase(k); break; }
	case 2: { int k = c.choose(keys), v = 10 + c.choose(3); c.log("Remove(%d, %d)", k, v); K key = El<K>::make(k); V val = El<V>::make(v); bool has = false; auto it = m.find(k); if (it != m.end()) { auto at = std::find(it->second.begin(), it->second.end(), v); if (at != it->second.end()) { has = true; it->second.erase(at); if (it->second.empty()) m.erase(it); } } MC_CHECK(g.Remove(key, val) == has, "Remove(%d, %d) returned %d", k, v, !has); break; }
	case 3: c.log("Clear"); MC_CHECK(g.Clear(), "Clear returned false"); m.clear(); break;
	case 4: { if (m.empty()) break; int i = c.choose((int)m.size()), k = c.choose(keys); auto it = m.begin(); std::advance(it, i); int j = c.choose((int)it->second.size()); c.log("Add(%d, GetByIndex(%d)[%d])", k, i, j); int v = it->second[j]; g.Add(El<K>::make(k), g.GetByIndex(i)[j]); m[k].push_back(v); break; }
	case 5: { if (m.empty()) break; int i = c.choose((int)m.size()); auto it = m.begin(); std::advance(it, i); int form = c.choose(3);
		if (form == 0) { c.log("Remove(Keys()[%d])", i); MC_CHECK(g.Remove(g.Keys()[i]), "Remove of an own key failed"); m.erase(it); }
		else if (form == 1) { c.log("Remove(Keys()[%d], own value)", i); MC_CHECK(g.Remove(g.Keys()[i], g.GetByIndex(i)[0]), "Remove of an own entry failed"); it->second.erase(it->second.begin()); if (it->second.empty()) m.erase(it); }
		else { c.log("Add(Keys()[%d], 12)", i); g.Add(g.Keys()[i], El<V>::make(12)); it->second.push_back(12); }
		break; }
	case 6: { c.log("move away and back"); Group<K, V> t(std::move(g)); observe(g, {}, keys, "moved-from"); observe(t, m, keys, "moved-to"); g.Add(El<K>::make(0), El<V>::make(10)); g = std::move(t); observe(t, {}, keys, "moved-from"); break; }
	case 7: { c.log("move into a non-empty one and back"); Group<K, V> t; t.Add(El<K>::make(2), El<V>::make(11)); t = std::move(g); observe(t, m, keys, "moved-to"); observe(g, {}, keys, "moved-from"); g = std::move(t); break; }
	}
	c.step();
}
template<typename K, typename V> void history(Ctx& c, int keys, int depth, bool forms = true)
{
	{ Group<K, V> g; Multi m; for (int i = 0; i < depth; i++) { groupOp(c, g, m, keys, i, forms); observe(g, m, keys, "after the operation"); lives<K, V>(m, "after the operation"); c.state(hashMulti(m)); } }
	lives<K, V>({}, "after destruction");
}
MC_SCENARIO(histories_tracked, 64, 4) { history<Tracked, Tracked>(c, 3, c.bound(4, 5), false); }
MC_SCENARIO(histories_all_forms, 64, 4) { history<Tracked, Tracked>(c, 3, c.bound(3, 4)); }
MC_SCENARIO(histories_int, 64, 4) { history<int, int>(c, 3, c.bound(3, 4), false); }
MC_SCENARIO(histories_strings, 32, 4) { history<WString, WString>(c, 3, c.bound(3, 4), false); }
MC_SCENARIO(histories_placed, 32, 4) { history<Placed, Placed>(c, 3, c.bound(3, 4), false); }
MC_SCENARIO(fill_and_empty, 64, 4)
{
	int n = c.choose(c.bound(7, 8));
	{
		Group<int, Tracked> g; Multi m;
		for (int i = 0; i < n; i++) { int k = c.choose(4); c.log("Add(%d, %d)", k, 10 + i % 3); g.Add(k, Tracked(10 + i % 3)); m[k].push_back(10 + i % 3); c.step(); }
		observe(g, m, 5, "after adding"); c.state(hashMulti(m));
		// take the values of one key away one by one
		int k = c.choose(4); while (m.count(k)) { int v = m[k][m[k].size() / 2]; c.log("Remove(%d, %d)", k, v); MC_CHECK(g.Remove(k, Tracked(v)), "Remove returned false"); auto& s = m[k]; s.erase(std::find(s.begin(), s.end(), v)); if (s.empty()) m.erase(k); observe(g, m, 5, "while removing"); lives<int, Tracked>(m, "while removing"); c.step(); }
	}
	lives<int, Tracked>({}, "after destruction");
}
// many keys, many values of one key
template<typename V> void large(Ctx& c, int top)
{
	int n = bigSize(c, 30, top), keys = c.pick({ 1, 2, 7, 64, 5000 }), order = c.choose(3), at = c.choose(4), op = c.choose(4); keys = std::min(keys, n); c.log("%d associations of %d keys, order %d, operation %d at %d", n, keys, order, op, at);
	{
		Group<int, V> g; Multi m; for (int i = 0; i < n; i++) { int k = order == 0 ? i % keys : order == 1 ? keys - 1 - i % keys : (int)((i * 7919l) % keys); g.Add(k, El<V>::make(i % 670)); m[k].push_back(i % 670); } c.step(n);
		auto check = [&](const char* what)
		{
			MC_CHECK(g.Count() == (vint)m.size() && g.Keys().Count() == g.Count(), "%s: Count %ld, expected %zu", what, (long)g.Count(), m.size()); vint i = 0; Seq all; for (auto& x : m) { MC_CHECK(g.Keys()[i] == x.first && g.Contains(x.first), "%s: key %ld is %d, expected %d", what, (long)i, g.Keys()[i], x.first); sameSeq(g.Get(x.first), x.second, what); sameSeq(g.GetByIndex(i), x.second, what); all.insert(all.end(), x.second.begin(), x.second.end()); i++; }
			Seq got; vint at = 0; auto e = g.CreateEnumerator(); while (e->Next()) { got.push_back(El<V>::read(e->Current().value)); if (e->Index() != at++) { delete e; mc::fail("%s: enumeration index", what); } } delete e; MC_CHECK(got == all, "%s: enumeration yields %zu values, expected %zu", what, got.size(), all.size());
		};
		check("after adding"); int ks[] = { 0, keys / 2, keys - 1, keys }; int k = ks[at]; bool in = m.count(k) > 0;
		switch (op)
		{
		case 0: MC_CHECK(g.Remove(k) == in, "Remove(%d)", k); m.erase(k); break;
		case 1: if (in) { while (m[k].size() > 1) { int i = (int)m[k].size() / 2, v = m[k][i]; MC_CHECK(g.Remove(k, El<V>::make(v)), "Remove(%d, %d)", k, v); auto& s = m[k]; s.erase(std::find(s.begin(), s.end(), v)); if (s.size() % 97 == 0) check("while removing"); } check("one value left"); MC_CHECK(g.Remove(k, El<V>::make(m[k][0])), "Remove of the last value"); m.erase(k); } else MC_CHECK(!g.Remove(k, El<V>::make(1)), "Remove(%d, 1)", k); break;
		case 2: { Group<int, V> h(std::move(g)); MC_CHECK(g.Count() == 0, "moved-from group"); g.Add(1, El<V>::make(1)); g = std::move(h); for (int i = 0; i < 40; i++) { g.Add(k, El<V>::make(i)); m[k].push_back(i); } break; }
		case 3: check("before Clear"); g.Clear(); m.clear(); break;
		}
		check("after the operation"); lives<int, V>(m, "after the operation"); c.step(2); c.state(mc::mix(mc::mix(n, keys), order * 100 + at * 10 + op));
	}
	lives<int, V>({}, "after destruction");
}
MC_SCENARIO(large_tracked, 32, 3) { large<Tracked>(c, c.bound(1100, 4200)); }
MC_SCENARIO(large_strings, 32, 3) { large<WString>(c, c.bound(550, 4200)); }
// joining two groups visits every key of both exactly once, in order
MC_SCENARIO(inner_join, 64, 4)
{
	Group<int, int> a; Group<int, Tracked> b; Multi ma, mb; int keys = c.bound(5, 6);
	for (int k = 0; k < keys; k++) { int x = c.choose(3), y = c.choose(3); for (int i = 0; i < x; i++) { a.Add(k, 10 + i); ma[k].push_back(10 + i); } for (int i = 0; i < y; i++) { b.Add(k, Tracked(20 + i)); mb[k].push_back(20 + i); } }
	std::vector<Seq> got, exp;
	auto vals = [](auto& xs, Seq& r) { for (vint i = 0; i < xs.Count(); i++) r.push_back(El<std::remove_cvref_t<decltype(xs[0])>>::read(xs[i])); };
	GroupInnerJoin(a, b,
		[&](int k, const List<int>& xs) { Seq r{ 1, k }; vals(xs, r); got.push_back(r); },
		[&](int k, const List<Tracked>& ys) { Seq r{ 2, k }; vals(ys, r); got.push_back(r); },
		[&](int k, const List<int>& xs, const List<Tracked>& ys) { Seq r{ 3, k }; vals(xs, r); vals(ys, r); got.push_back(r); });
	for (int k = 0; k < keys; k++) { bool x = ma.count(k), y = mb.count(k); if (!x && !y) continue; Seq r{ x && y ? 3 : x ? 1 : 2, k }; if (x) r.insert(r.end(), ma[k].begin(), ma[k].end()); if (y) r.insert(r.end(), mb[k].begin(), mb[k].end()); exp.push_back(r); }
	MC_CHECK(got == exp, "the join reported %zu events, expected %zu (or different ones)", got.size(), exp.size());
	c.step(); c.state(mc::mix(hashMulti(ma), hashMulti(mb)));
}
// keys and values next to the limits of their types
template<typename K> void extremes(Ctx& c, int len)
{
	auto& v = extremesOf<K>(); int N = (int)v.size(), n = c.choose(len + 1); Group<K, K> xs; std::map<int, Seq> m;
	for (int i = 0; i < n; i++) { int k = c.choose(N), w = (k * 5 + i) % N; xs.Add(v[k], v[w]); m[k].push_back(w); c.step(); }
	MC_CHECK(xs.Count() == (vint)m.size(), "Count is %ld, expected %zu", (long)xs.Count(), m.size()); vint at = 0; uint64_t h = N;
	for (auto& x : m) { MC_CHECK(xs.Keys()[at] == v[x.first] && xs.GetByIndex(at).Count() == (vint)x.second.size(), "entry %ld", (long)at); for (size_t i = 0; i < x.second.size(); i++) MC_CHECK(xs.GetByIndex(at)[(vint)i] == v[x.second[i]] && xs.Contains(v[x.first], v[x.second[i]]), "value %zu of entry %ld", i, (long)at); at++; h = mc::mix(h, mc::hashSeq(x.second, x.first)); } c.state(h);
	for (int k = 0; k < N; k++) { bool in = m.count(k); MC_CHECK(xs.Contains(v[k]) == in && xs.Keys().Contains(v[k]) == in, "Contains(extreme %d)", k); for (int w = 0; w < N; w++) { bool has = in && std::count(m[k].begin(), m[k].end(), w); if (!in) m.erase(k); MC_CHECK(xs.Contains(v[k], v[w]) == has, "Contains(extreme %d, extreme %d)", k, w); } }
	if (!m.empty()) { auto& x = *m.begin(); int w = x.second[0]; MC_CHECK(xs.Remove(v[x.first], v[w]), "Remove of a pair"); MC_CHECK(xs.Contains(v[x.first]) == (x.second.size() > 1), "after Remove"); }
}
MC_SCENARIO(extremes_vint, 64, 3) { extremes<vint>(c, c.bound(4, 5)); }
MC_SCENARIO(extremes_unsigned, 64, 3) { extremes<unsigned>(c, c.bound(4, 5)); }
// replaced by the one that one of its own values owns
struct Tree { Tracked id; Group<int, Ptr<Tree>> kids; Tree(int v) :id(v) {} };
MC_SCENARIO(from_inside, 8, 3)
{
	{
		int n = 1 + c.choose(c.bound(4, 6)), i = c.choose(n), m = c.choose(c.bound(4, 6));
		c.log("%d keys replaced by moving the %d keys inside value %d", n, m, i);
		Tree root(900); for (int k = 0; k < n; k++) root.kids.Add(k, Ptr(new Tree(k)));
		Tree* at = root.kids.Get(i)[0].Obj(); for (int k = 0; k < m; k++) at->kids.Add(100 + k, Ptr(new Tree(100 + k)));
		root.kids = std::move(at->kids); c.step();
		MC_CHECK(root.kids.Count() == m && root.kids.Keys().Count() == m, "Count %ld, expected %d", (long)root.kids.Count(), m);
		for (int k = 0; k < m; k++) MC_CHECK(root.kids.Get(100 + k)[0]->id.v == 100 + k, "the value of key %d is another one", k);
		checkLive<Tracked>(m + 1, "after the move"); c.state(mc::mix(n, mc::mix(m, i)));
	}
	checkLive<Tracked>(0, "after destruction");
}
