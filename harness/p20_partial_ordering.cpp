// P20: dependency sorting. For every graph up to a size: the components partition the items, are exactly the sets of
// mutually dependent items, and every item comes after everything it depends on.
#include "coll.h"
#include <Collections/PartialOrdering.h>
#include <set>
typedef std::vector<std::vector<bool>> Graph; // g[a][b]: a depends on b

static Graph closure(Graph g) { int n = (int)g.size(); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (g[i][k]) for (int j = 0; j < n; j++) if (g[k][j]) g[i][j] = true; return g; }
static void checkResult(PartialOrderingProcessor& pop, const Graph& g, const char* what, bool repeated = false)
{
	int n = (int)g.size(); Graph t = closure(g); MC_CHECK(pop.nodes.Count() == n, "%s: %ld nodes, expected %d", what, (long)pop.nodes.Count(), n);
	std::vector<int> comp(n, -1); int total = 0;
	for (vint i = 0; i < pop.components.Count(); i++)
	{
		auto& k = pop.components[i]; MC_CHECK(k.nodeCount > 0, "%s: component %ld is empty", what, (long)i);
		for (vint j = 0; j < k.nodeCount; j++) { vint v = k.firstNode[j]; MC_CHECK(v >= 0 && v < n, "%s: component %ld refers to node %ld", what, (long)i, (long)v); MC_CHECK(comp[v] == -1, "%s: node %ld is in two components", what, (long)v); comp[v] = (int)i; total++; }
	}
	MC_CHECK(total == n, "%s: %d of %d nodes are in a component", what, total, n);
	for (int a = 0; a < n; a++)
	{
		MC_CHECK(pop.nodes[a].component == comp[a], "%s: node %d says component %ld, but is in %d", what, a, (long)pop.nodes[a].component, comp[a]);
		std::set<vint> ins, outs; for (auto v : *pop.nodes[a].ins) ins.insert(v); for (auto v : *pop.nodes[a].outs) outs.insert(v);
		if (!repeated) MC_CHECK((vint)ins.size() == pop.nodes[a].ins->Count() && (vint)outs.size() == pop.nodes[a].outs->Count(), "%s: node %d lists a dependency twice", what, a);
		for (int b = 0; b < n; b++)
		{
			bool together = a == b || (t[a][b] && t[b][a]);
			MC_CHECK((comp[a] == comp[b]) == together, "%s: nodes %d and %d are %s one component", what, a, b, together ? "not in" : "in");
			if (g[a][b]) MC_CHECK(comp[b] <= comp[a], "%s: node %d comes before node %d which it depends on", what, a, b);
			MC_CHECK((ins.count(b) > 0) == g[a][b], "%s: ins of node %d wrong for %d", what, a, b); MC_CHECK((outs.count(b) > 0) == g[b][a], "%s: outs of node %d wrong for %d", what, a, b);
		}
		for (auto v : ins) MC_CHECK(v >= 0 && v < n, "%s: unknown node", what);
	}
}
static Graph chooseGraph(Ctx& c, int n, bool loops) { Graph g(n, std::vector<bool>(n)); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (loops || a != b) g[a][b] = c.flip(); return g; }
static uint64_t hashGraph(const Graph& g) { uint64_t h = g.size(); for (auto& r : g) for (bool b : r) h = h * 2 + b; return h; }
static const int names[] = { 30, 10, 50, 20, 40, 0, 60, 15 }; // item values, deliberately not in index order
static void logGraph(Ctx& c, const Graph& g) { if (!c.logging) return; for (size_t a = 0; a < g.size(); a++) for (size_t b = 0; b < g.size(); b++) if (g[a][b]) c.log("%zu depends on %zu", a, b); }

template<typename T> T item(int i) { return El<T>::make(names[i]); }
template<typename T> void withGroup(Ctx& c, const Graph& g, bool twice)
{
	int n = (int)g.size(); List<T> items; for (int i = 0; i < n; i++) items.Add(item<T>(i)); Group<T, T> dep; for (int a = n - 1; a >= 0; a--) for (int b = 0; b < n; b++) if (g[a][b]) for (int k = 0; k < (twice ? 2 : 1); k++) dep.Add(item<T>(a), item<T>(b));
	PartialOrderingProcessor pop; pop.InitWithGroup(items, dep); pop.Sort(); checkResult(pop, g, "InitWithGroup", twice); c.step();
	if (n > 0) { MC_CHECK(raises([&] { pop.Sort(); }), "sorting twice did not raise"); MC_CHECK(raises([&] { pop.InitWithGroup(items, dep); }), "initializing twice did not raise"); checkResult(pop, g, "after refused calls", twice); }
}
template<typename T> void withFunc(Ctx& c, const Graph& g)
{
	int n = (int)g.size(); Array<T> items(n); for (int i = 0; i < n; i++) items[i] = item<T>(i); auto index = [&](const T& x) { for (int i = 0; i < n; i++) if (El<T>::read(x) == names[i]) return i; mc::fail("an unknown item was asked for"); };
	PartialOrderingProcessor pop; pop.InitWithFunc(items, [&](const T& a, const T& b) { return (bool)g[index(a)][index(b)]; }); pop.Sort(); checkResult(pop, g, "InitWithFunc"); c.step();
}
MC_SCENARIO(graphs_with_loops, 64, 8) { Graph g = chooseGraph(c, c.choose(5), true); logGraph(c, g); withGroup<int>(c, g, false); c.state(hashGraph(g)); }
MC_SCENARIO(graphs_5, 64, 8) { Graph g = chooseGraph(c, 5, false); logGraph(c, g); withGroup<int>(c, g, false); c.state(hashGraph(g)); }
MC_SCENARIO(dags_6, 64, 8)
{
	int n = c.bound(6, 7); Graph g(n, std::vector<bool>(n)); bool up = c.flip(); for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) if (c.flip()) { if (up) g[b][a] = true; else g[a][b] = true; } logGraph(c, g); withGroup<int>(c, g, false); c.state(hashGraph(g));
}
// a processor that has been initialised refuses every further initialisation and keeps what it has
MC_SCENARIO(initialised_twice, 32, 6)
{
	Graph g = chooseGraph(c, 1 + c.choose(3), true); int n = (int)g.size(), how = c.choose(3), again = c.choose(3), other = c.choose(3); bool sorted = c.flip(); logGraph(c, g); c.log("initialised in way %d, again in way %d, %s", how, again, sorted ? "after sorting" : "before sorting");
	List<int> items, less; for (int i = 0; i < n; i++) { items.Add(names[i]); if (i > 0) less.Add(names[i]); } Group<int, int> dep, none, back; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g[a][b]) { dep.Add(names[a], names[b]); back.Add(names[b], names[a]); }
	auto index = [&](int x) { for (int i = 0; i < n; i++) if (x == names[i]) return i; return 0; }; Dictionary<int, int> own, one; for (int i = 0; i < n; i++) { own.Add(names[i], i); one.Add(names[i], 0); }
	PartialOrderingProcessor pop; if (how == 0) pop.InitWithGroup(items, dep); else if (how == 1) pop.InitWithFunc(items, [&](int a, int b) { return (bool)g[index(a)][index(b)]; }); else pop.InitWithSubClass(items, dep, own);
	if (sorted) pop.Sort();
	auto refused = [&] { const auto& i2 = other == 2 ? less : items; const auto& d2 = other == 1 ? back : none; return raises([&] { if (again == 0) pop.InitWithGroup(i2, d2); else if (again == 1) pop.InitWithFunc(i2, [&](int, int) { return other == 1; }); else pop.InitWithSubClass(i2, d2, one); }); };
	MC_CHECK(refused(), "initializing twice did not raise"); c.step(); if (!sorted) pop.Sort(); checkResult(pop, g, "after a refused second initialisation"); c.state(mc::mix(hashGraph(g), ((how * 3 + again) * 3 + other) * 2 + sorted));
}
MC_SCENARIO(duplicated_edges, 32, 6) { Graph g = chooseGraph(c, c.choose(4), true); withGroup<int>(c, g, true); c.state(hashGraph(g)); }
MC_SCENARIO(functions, 32, 6) { Graph g = chooseGraph(c, c.choose(5), true); withFunc<int>(c, g); c.state(hashGraph(g)); }
MC_SCENARIO(tracked_items, 32, 6) { { Graph g = chooseGraph(c, c.choose(4), true); withFunc<Tracked>(c, g); withGroup<Tracked>(c, g, false); c.state(hashGraph(g)); } MC_CHECK(mc::Registry::live() == 0, "items never destroyed"); }
MC_SCENARIO(string_items, 32, 6) { Graph g = chooseGraph(c, c.choose(4), true); withFunc<WString>(c, g); withGroup<WString>(c, g, false); c.state(hashGraph(g)); }
MC_SCENARIO(chains, 16, 2)
{
	// long chains and one big cycle, items in several orders
	int n = 1 + c.choose(c.bound(60, 200)), shape = c.choose(4); Graph g(n, std::vector<bool>(n)); for (int i = 0; i + 1 < n; i++) { if (shape == 0) g[i][i + 1] = true; else if (shape == 1) g[i + 1][i] = true; else if (shape == 2) { int a = (i * 7) % n, b = ((i + 1) * 7) % n; if (a != b) g[a][b] = true; } else g[i][i + 1] = true; } if (shape == 3) g[n - 1][0] = true;
	List<vint> items; for (int i = 0; i < n; i++) items.Add(i); Group<vint, vint> dep; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g[a][b]) dep.Add(a, b); PartialOrderingProcessor pop; pop.InitWithGroup(items, dep); pop.Sort(); checkResult(pop, g, "chain"); c.step(); c.state(n * 4 + shape); c.log("%d items, shape %d", n, shape);
}
// several cycles of 1..3 items that depend on each other in every way, the items in several orders
MC_SCENARIO(linked_cycles, 64, 6)
{
	int blocks = c.bound(4, 5); std::vector<int> first, size; int n = 0; for (int b = 0; b < blocks; b++) { int k = 1 + c.choose(3); first.push_back(n); size.push_back(k); n += k; } int label = c.choose(4), ends = c.choose(2);
	auto name = [&](int i) { return label == 0 ? i : label == 1 ? n - 1 - i : label == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (i + n / 2) % n; }; Graph g(n, std::vector<bool>(n)); auto edge = [&](int a, int b) { g[name(a)][name(b)] = true; };
	for (int b = 0; b < blocks; b++) if (size[b] > 1) for (int i = 0; i < size[b]; i++) edge(first[b] + i, first[b] + (i + 1) % size[b]);
	for (int a = 0; a < blocks; a++) for (int b = 0; b < a; b++) if (c.flip()) edge(first[a] + (ends ? size[a] - 1 : 0), first[b] + (ends ? 0 : size[b] - 1)); logGraph(c, g);
	List<vint> items; for (int i = 0; i < n; i++) items.Add(i); Group<vint, vint> dep; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g[a][b]) dep.Add(a, b); PartialOrderingProcessor pop; pop.InitWithGroup(items, dep); pop.Sort(); checkResult(pop, g, "linked cycles"); c.step(); c.state(hashGraph(g));
}
// many items in regular shapes, named in several orders, given in every way
MC_SCENARIO(large, 32, 3)
{
	int n = bigSize(c, 30, c.bound(280, 530)), shape = c.choose(9), how = c.choose(4), label = c.choose(3); c.log("%d items, shape %d, given in way %d, named in way %d", n, shape, how, label);
	int stride = n % 7 ? 7 : 11; auto at = [&](int i) { return label == 0 ? i : label == 1 ? n - 1 - i : (int)((long)i * stride % n); }; Graph g(n, std::vector<bool>(n)); auto edge = [&](int a, int b) { if (a >= 0 && b >= 0 && a < n && b < n) g[at(a)][at(b)] = true; };
	for (int i = 0; i < n; i++) switch (shape)
	{
	case 0: edge(i, 0); break; // all on one
	case 1: edge(0, i); break; // one on all
	case 2: edge(i, (i - 1) / 2); break; // a tree
	case 3: edge((i - 1) / 2, i); break; // a tree, upside down
	case 4: edge(i, (i + 1) % n); break; // one cycle
	case 5: edge(i, i % 5 == 4 ? i - 4 : i + 1); edge(i, i + 5); break; // cycles of five, linked
	case 6: edge(i, (i * 3 + 1) % n); edge(i, (i * 5 + 2) % n); break;
	case 7: for (int k = 1; k <= 10; k++) edge(i - i % 10 + k % 10, i - i % 10 - k); break; // layers of ten
	case 8: if (i % 2) edge(i, i - 1); break; // many pairs
	}
	List<vint> items; for (int i = 0; i < n; i++) items.Add(i * 10 + 3); Group<vint, vint> dep; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g[a][b]) dep.Add(a * 10 + 3, b * 10 + 3); PartialOrderingProcessor pop;
	if (how == 0) { pop.InitWithGroup(items, dep); pop.Sort(); checkResult(pop, g, "many items"); }
	else if (how == 1) { pop.InitWithFunc(items, [&](vint a, vint b) { return (bool)g[a / 10][b / 10]; }); pop.Sort(); checkResult(pop, g, "many items"); }
	else
	{
		auto cls = [&](int i) { return how == 2 ? i % (n / 3) : i / 4; }; Dictionary<vint, WString> sub; for (int i = 0; i < n; i++) sub.Add(i * 10 + 3, itow(cls(i))); pop.InitWithSubClass(items, dep, sub); pop.Sort(); std::vector<int> node(n, -1); int seen = 0;
		for (vint i = 0; i < pop.nodes.Count(); i++) { auto& x = pop.nodes[i]; for (vint j = 0; j < x.subClassItemCount; j++) { vint v = x.firstSubClassItem[j]; MC_CHECK(v >= 0 && v < n && node[v] == -1, "node %ld refers to item %ld", (long)i, (long)v); node[v] = (int)i; seen++; } } MC_CHECK(seen == n, "%d of %d items belong to a node", seen, n);
		for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) MC_CHECK((node[a] == node[b]) == (cls(a) == cls(b)), "items %d and %d are wrongly %s", a, b, node[a] == node[b] ? "together" : "apart");
		int N = (int)pop.nodes.Count(); Graph q(N, std::vector<bool>(N)); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g[a][b]) q[node[a]][node[b]] = true; checkResult(pop, q, "many items in classes");
	}
	c.step(n); c.state(n * 1000 + shape * 100 + how * 10 + label);
}
// items grouped into sub classes: the classes are sorted by the dependencies of their members
template<typename T> void withSubClass(Ctx& c, const Graph& g, const std::vector<int>& cls)
{
	int n = (int)g.size(); List<T> items; for (int i = 0; i < n; i++) items.Add(item<T>(i)); Group<T, T> dep; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g[a][b]) dep.Add(item<T>(a), item<T>(b));
	Dictionary<T, vint> sub; for (int i = 0; i < n; i++) if (cls[i] >= 0) sub.Add(item<T>(i), cls[i]);
	PartialOrderingProcessor pop; pop.InitWithSubClass(items, dep, sub); pop.Sort(); c.step();
	// which node represents which items
	std::vector<int> node(n, -1); int seen = 0;
	for (vint i = 0; i < pop.nodes.Count(); i++) { auto& x = pop.nodes[i]; MC_CHECK(x.subClassItemCount > 0, "node %ld has no items", (long)i); for (vint j = 0; j < x.subClassItemCount; j++) { vint v = x.firstSubClassItem[j]; MC_CHECK(v >= 0 && v < n && node[v] == -1, "node %ld refers to item %ld", (long)i, (long)v); node[v] = (int)i; seen++; } }
	MC_CHECK(seen == n, "%d of %d items belong to a node", seen, n);
	for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) MC_CHECK((node[a] == node[b]) == (a == b || (cls[a] >= 0 && cls[a] == cls[b])), "items %d and %d are wrongly %s", a, b, node[a] == node[b] ? "together" : "apart");
	int N = (int)pop.nodes.Count(); Graph q(N, std::vector<bool>(N)); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g[a][b]) q[node[a]][node[b]] = true; checkResult(pop, q, "InitWithSubClass");
}
MC_SCENARIO(sub_classes, 64, 8) { int n = c.choose(4); Graph g = chooseGraph(c, n, true); std::vector<int> cls; for (int i = 0; i < n; i++) cls.push_back(c.range(-1, 2)); logGraph(c, g); withSubClass<int>(c, g, cls); c.state(mc::hashSeq(cls, hashGraph(g))); }
MC_SCENARIO(sub_classes_4, 64, 8) { int n = 4; Graph g = chooseGraph(c, n, false); std::vector<int> cls; for (int i = 0; i < n; i++) cls.push_back(c.range(-1, 1)); logGraph(c, g); withSubClass<int>(c, g, cls); c.state(mc::hashSeq(cls, hashGraph(g))); }
MC_SCENARIO(sub_classes_5, 64, 6) { int n = 5; Graph g(n, std::vector<bool>(n)); int edges = c.bound(2, 3); for (int k = 0; k < edges; k++) { int e = c.choose(n * n); g[e / n][e % n] = true; } std::vector<int> cls; for (int i = 0; i < n; i++) cls.push_back(c.range(-1, 1)); logGraph(c, g); withSubClass<int>(c, g, cls); c.state(mc::hashSeq(cls, hashGraph(g))); }
MC_SCENARIO(sub_classes_strings, 32, 6) { int n = 3; Graph g = chooseGraph(c, n, false); std::vector<int> cls; for (int i = 0; i < n; i++) cls.push_back(c.range(-1, 1)); withSubClass<WString>(c, g, cls); c.state(mc::hashSeq(cls, hashGraph(g))); }
// relations to items that do not exist are refused
MC_SCENARIO(unknown_items, 4, 2)
{
	int n = c.choose(3); bool key = c.flip(); List<int> items; for (int i = 0; i < n; i++) items.Add(i); Group<int, int> dep; dep.Add(key ? 7 : 0, key ? 0 : 7); PartialOrderingProcessor pop; c.step(); c.state(n * 2 + key); MC_CHECK(raises([&] { pop.InitWithGroup(items, dep); }), "a relation to an unknown item did not raise");
}
// an initialisation that was refused leaves nothing behind
MC_SCENARIO(after_refusal, 32, 6)
{
	int n = c.choose(4); Graph g = chooseGraph(c, n, true), none(n, std::vector<bool>(n)); List<int> items; for (int i = 0; i < n; i++) items.Add(names[i]); Group<int, int> bad, good; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g[a][b]) bad.Add(names[a], names[b]); bool key = c.flip(); int unknown = c.pick({ -5, 25, 99 }); int other = n ? names[c.choose(n)] : 1; if (key) bad.Add(unknown, other); else bad.Add(other, unknown);
	bool same = c.flip(), sub = c.flip(); logGraph(c, g); c.log("%s %d is unknown", key ? "key" : "value", unknown); if (same) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g[a][b]) good.Add(names[a], names[b]);
	PartialOrderingProcessor pop; Dictionary<int, int> classes; MC_CHECK(raises([&] { if (sub) pop.InitWithSubClass(items, bad, classes); else pop.InitWithGroup(items, bad); }), "a relation to an unknown item did not raise");
	pop.InitWithGroup(items, good); pop.Sort(); checkResult(pop, same ? g : none, "after a refused initialisation"); c.step(); c.state(mc::mix(hashGraph(g), n * 8 + same * 2 + sub));
}
