// P17: lazy pipelines. Every composition of lazy operations up to a depth, over every small source, yields what the
// same composition of plain sequence functions yields, through every way of reading the result.
#include "coll.h"

static Seq distinctOf(const Seq& m) { Seq r; for (int v : m) if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); return r; }
static bool in(const Seq& m, int v) { return std::find(m.begin(), m.end(), v) != m.end(); }
template<typename T> int val(const T& x) { return El<T>::read(x); }
template<typename T> T mk(int v) { return El<T>::make(v); }

template<typename T> struct Env { List<T> other, none; Seq otherSeq{ 1, 5, 1, 0 }; Env() { for (int v : otherSeq) other.Add(mk<T>(v)); } };
const int Ops = 27;
static int fnCalls = 0; // every call of a function given to a pipeline
template<typename T> void apply(Ctx& c, Env<T>& env, int op, LazyList<T>& xs, Seq& m)
{
	auto cut = [&](int n) { if ((int)m.size() > n) m.resize(n); };
	auto drop = [&](int n) { m.erase(m.begin(), m.begin() + std::min<int>(n, (int)m.size())); };
	Seq r;
	switch (op)
	{
	case 0: c.log("Select(x+1)"); xs = xs.Select([](const T& x) { fnCalls++; return mk<T>(val(x) + 1); }); for (int& v : m) v++; break;
	case 1: c.log("Select(x%%2)"); xs = xs.Select([](const T& x) { fnCalls++; return mk<T>(val(x) % 2); }); for (int& v : m) v %= 2; break;
	case 2: c.log("Where(odd)"); xs = xs.Where([](const T& x) { fnCalls++; return val(x) % 2 == 1; }); for (int v : m) if (v % 2 == 1) r.push_back(v); m = r; break;
	case 3: c.log("Where(>0)"); xs = xs.Where([](const T& x) { fnCalls++; return val(x) > 0; }); for (int v : m) if (v > 0) r.push_back(v); m = r; break;
	case 4: c.log("Where(false)"); xs = xs.Where([](const T&) { fnCalls++; return false; }); m.clear(); break;
	case 5: c.log("Take(0)"); xs = xs.Take(0); cut(0); break;
	case 6: c.log("Take(1)"); xs = xs.Take(1); cut(1); break;
	case 7: c.log("Take(3)"); xs = xs.Take(3); cut(3); break;
	case 8: c.log("Skip(0)"); xs = xs.Skip(0); break;
	case 9: c.log("Skip(1)"); xs = xs.Skip(1); drop(1); break;
	case 10: c.log("Skip(3)"); xs = xs.Skip(3); drop(3); break;
	case 11: c.log("Repeat(0)"); xs = xs.Repeat(0); m.clear(); break;
	case 12: c.log("Repeat(2)"); xs = xs.Repeat(2); r = m; r.insert(r.end(), m.begin(), m.end()); m = r; break;
	case 13: c.log("Distinct"); xs = xs.Distinct(); m = distinctOf(m); break;
	case 14: c.log("Reverse"); xs = xs.Reverse(); std::reverse(m.begin(), m.end()); break;
	case 15: c.log("Concat(other)"); xs = xs.Concat(env.other); m.insert(m.end(), env.otherSeq.begin(), env.otherSeq.end()); break;
	case 16: c.log("other.Concat(xs)"); xs = From(env.other).Concat(xs); r = env.otherSeq; r.insert(r.end(), m.begin(), m.end()); m = r; break;
	case 17: c.log("Concat(itself)"); xs = xs.Concat(xs); r = m; r.insert(r.end(), m.begin(), m.end()); m = r; break;
	case 18: c.log("Intersect(other)"); xs = xs.Intersect(env.other); for (int v : distinctOf(m)) if (in(env.otherSeq, v)) r.push_back(v); m = r; break;
	case 19: c.log("Except(other)"); xs = xs.Except(env.other); for (int v : distinctOf(m)) if (!in(env.otherSeq, v)) r.push_back(v); m = r; break;
	case 20: c.log("Union(other)"); xs = xs.Union(env.other); m.insert(m.end(), env.otherSeq.begin(), env.otherSeq.end()); m = distinctOf(m); break;
	case 21: c.log("OrderBySelf"); xs = xs.OrderBySelf(); std::sort(m.begin(), m.end()); break;
	case 22: c.log("OrderBy(descending)"); xs = xs.OrderBy([](const T& a, const T& b) { fnCalls++; return b <=> a; }); std::sort(m.begin(), m.end()); std::reverse(m.begin(), m.end()); break;
	case 23: c.log("Evaluate(true)"); xs = xs.Evaluate(true); break;
	case 24: c.log("Evaluate()"); xs = xs.Evaluate(); break;
	case 25: c.log("Pairwise(other), sum"); xs = xs.Pairwise(env.other).Select([](const Pair<T, T>& p) { fnCalls++; return mk<T>(val(p.key) + val(p.value)); }); for (size_t i = 0; i < m.size() && i < env.otherSeq.size(); i++) r.push_back(m[i] + env.otherSeq[i]); m = r; break;
	case 26: c.log("SelectMany(x, x)"); xs = xs.SelectMany([](const T& x) { fnCalls++; auto l = Ptr(new List<T>); for (int i = 0; i < val(x) % 3; i++) l->Add(x); return LazyList<T>(l); }); for (int v : m) for (int i = 0; i < v % 3; i++) r.push_back(v); m = r; break;
	}
}
template<typename T> void readAll(const LazyList<T>& xs, const Seq& m)
{
	auto s = show(m); int n = (int)m.size();
	MC_CHECK(enumerate(xs) == m, "enumeration yields %s, expected %s", show(enumerate(xs)).c_str(), s.c_str());
	MC_CHECK(enumerate(xs) == m, "the second enumeration differs from the first one");
	MC_CHECK(xs.Count() == n, "Count is %ld, expected %d", (long)xs.Count(), n);
	MC_CHECK(xs.IsEmpty() == m.empty(), "IsEmpty is wrong for %s", s.c_str());
	Seq f; for (auto& x : xs) f.push_back(val(x)); MC_CHECK(f == m, "a for loop sees %s, expected %s", show(f).c_str(), s.c_str());
	f.clear(); for (auto [x, i] : indexed(xs)) { MC_CHECK(i == (vint)f.size(), "an indexed for loop counts wrongly"); f.push_back(val(x)); } MC_CHECK(f == m, "an indexed for loop sees %s, expected %s", show(f).c_str(), s.c_str());
	auto add = [](const T& a, const T& b) { return mk<T>((val(a) * 3 + val(b)) % 101); };
	if (m.empty())
	{
		MC_CHECK(raises([&] { xs.First(); }) && raises([&] { xs.Last(); }) && raises([&] { xs.Max(); }) && raises([&] { xs.Min(); }) && raises([&] { xs.Aggregate(add); }), "reading from an empty collection did not raise");
		MC_CHECK(val(xs.First(mk<T>(88))) == 88 && val(xs.Last(mk<T>(88))) == 88, "First/Last with a default");
	}
	else
	{
		MC_CHECK(val(xs.First()) == m[0] && val(xs.First(mk<T>(88))) == m[0], "First of %s", s.c_str());
		MC_CHECK(val(xs.Last()) == m.back() && val(xs.Last(mk<T>(88))) == m.back(), "Last of %s", s.c_str());
		MC_CHECK(val(xs.Max()) == *std::max_element(m.begin(), m.end()), "Max of %s", s.c_str());
		MC_CHECK(val(xs.Min()) == *std::min_element(m.begin(), m.end()), "Min of %s", s.c_str());
		int a = m[0]; for (int i = 1; i < n; i++) a = (a * 3 + m[i]) % 101; MC_CHECK(val(xs.Aggregate(add)) == a, "Aggregate of %s", s.c_str());
	}
	int a = 7; for (int v : m) a = (a * 3 + v) % 101; MC_CHECK(xs.Aggregate(7, [](int i, const T& x) { return (i * 3 + val(x)) % 101; }) == a, "Aggregate with an initial value of %s", s.c_str());
	for (int k = 0; k < 4; k++)
	{
		bool all = true, any = false; for (int v : m) { all = all && v != k; any = any || v == k; }
		MC_CHECK(xs.All([=](const T& x) { return val(x) != k; }) == all, "All(x != %d) of %s", k, s.c_str());
		MC_CHECK(xs.Any([=](const T& x) { return val(x) == k; }) == any, "Any(x == %d) of %s", k, s.c_str());
	}
	List<T> l; CopyFrom(l, xs); sameSeq(l, m, "a copy into a list");
	MC_CHECK(CompareEnumerable(xs, l) == 0, "a collection does not compare equal to its copy");
	LazyList<T> copy(xs), moved(std::move(copy)), assigned; assigned = moved; MC_CHECK(enumerate(assigned) == m, "a copied pipeline differs"); MC_CHECK(copy.IsEmpty(), "a moved-from pipeline is not empty");
	assigned = std::move(moved); MC_CHECK(enumerate(assigned) == m && moved.IsEmpty(), "moving a pipeline");
}
template<typename T> void pipeline(Ctx& c, int maxLen, int alphabet, int depth)
{
	{
		int n = c.choose(maxLen + 1); Seq m; auto src = Ptr(new List<T>); for (int i = 0; i < n; i++) { int v = c.choose(alphabet); m.push_back(v); src->Add(mk<T>(v)); }
		c.log("source %s", show(m).c_str());
		bool own = c.flip(); LazyList<T> xs; if (own) xs = src; else xs = *src.Obj();
		Env<T> env; auto keep = src; if (own) { keep = nullptr; src = nullptr; }
		for (int d = 0; d < depth; d++) { apply(c, env, c.choose(Ops), xs, m); c.step(); }
		c.state(mc::hashSeq(m)); readAll(xs, m);
	}
}
MC_SCENARIO(ints_deep, 64, 4) { pipeline<int>(c, 2, 2, c.bound(3, 4)); }
MC_SCENARIO(ints_wide, 64, 4) { pipeline<int>(c, c.bound(4, 5), 3, 2); }
MC_SCENARIO(tracked, 64, 4) { pipeline<Tracked>(c, 3, c.bound(2, 3), 2); }
MC_SCENARIO(single_long, 64, 4) { pipeline<int>(c, c.bound(7, 9), 3, 1); }

// large sources, one and two operations
MC_SCENARIO(large, 64, 3)
{
	int n = bigSize(c, 12, c.bound(600, 2100)); Seq m; List<int> src; int shape = c.choose(3); for (int i = 0; i < n; i++) { int v = shape == 0 ? i : shape == 1 ? (i * 7) % 11 : n - i; m.push_back(v); src.Add(v); } Env<int> env; LazyList<int> xs = src; c.log("%d elements, shape %d", n, shape);
	int depth = n < 70 ? 2 : 1; for (int d = 0; d < depth; d++) { apply(c, env, c.choose(Ops), xs, m); c.step(); } c.state(mc::hashSeq(m)); readAll(xs, m);
}
// longer sources with every count
MC_SCENARIO(counts, 32, 3)
{
	int n = c.choose(c.bound(10, 16)); Seq m; List<int> src; for (int i = 0; i < n; i++) { m.push_back(i); src.Add(i); } LazyList<int> xs = src;
	for (int d = 0; d < 2; d++)
	{
		int op = c.choose(3), k = c.choose(n + 3); Seq r;
		if (op == 0) { c.log("Take(%d)", k); xs = xs.Take(k); if ((int)m.size() > k) m.resize(k); }
		else if (op == 1) { c.log("Skip(%d)", k); xs = xs.Skip(k); m.erase(m.begin(), m.begin() + std::min<int>(k, (int)m.size())); }
		else { c.log("Repeat(%d)", k); xs = xs.Repeat(k); for (int i = 0; i < k; i++) r.insert(r.end(), m.begin(), m.end()); m = r; }
		c.step();
	}
	c.state(mc::hashSeq(m)); MC_CHECK(enumerate(xs) == m, "enumeration yields %s, expected %s", show(enumerate(xs)).c_str(), show(m).c_str());
}
MC_SCENARIO(ranges, 16, 2)
{
	vint s = c.range(-6, 6), n = c.range(0, 12); Seq m; for (vint i = 0; i < n; i++) m.push_back((int)(s + i)); c.step(); c.state((s + 10) * 100 + n); c.log("Range(%ld, %ld)", (long)s, (long)n);
	Seq r; for (auto x : Range<vint>(s, n)) r.push_back((int)x); MC_CHECK(r == m, "Range(%ld, %ld) yields %s", (long)s, (long)n, show(r).c_str());
	r.clear(); for (auto x : Range<vint>(s, n).Reverse().Skip(1)) r.push_back((int)x); Seq e(m.rbegin(), m.rend()); if (!e.empty()) e.erase(e.begin()); MC_CHECK(r == e, "reversed range yields %s", show(r).c_str());
}
// functions run only when the result is read, once per element
MC_SCENARIO(laziness, 32, 3)
{
	int n = c.choose(5); List<int> src; for (int i = 0; i < n; i++) src.Add(i); int calls = 0, tests = 0; int depth = 1 + c.choose(3); LazyList<int> xs = src; int kept = n;
	for (int d = 0; d < depth; d++) if (c.flip()) { c.log("Select"); xs = xs.Select([&calls](int x) { calls++; return x; }); } else { c.log("Where"); xs = xs.Where([&tests, d](int x) { tests++; return x != d; }); }
	MC_CHECK(calls == 0 && tests == 0, "building a pipeline called a function"); LazyList<int> copy = xs; auto y = copy.Take(2).Concat(xs).Skip(1); MC_CHECK(calls == 0 && tests == 0, "building a pipeline called a function");
	c.step(); c.state(mc::mix(n, depth)); (void)kept;
	auto e = xs.CreateEnumerator(); MC_CHECK(calls == 0 && tests == 0, "creating an enumerator called a function"); delete e;
	Seq a = enumerate(xs); int c1 = calls, t1 = tests; MC_CHECK(c1 <= n * depth && t1 <= n * depth, "%d and %d function calls for %d elements and %d operations", c1, t1, n, depth); MC_CHECK(enumerate(xs) == a && calls == 2 * c1 && tests == 2 * t1, "the second enumeration calls the functions %d and %d times, the first one %d and %d times", calls - c1, tests - t1, c1, t1);
}
// reading the first elements computes nothing of what comes after them: for every element of the result, the number of source
// elements that have to be computed to know it
MC_SCENARIO(prefix, 64, 4)
{
	struct El1 { int v, need; }; typedef std::vector<El1> M; static int calls; calls = 0; int n = c.choose(c.bound(5, 6)); List<int> src; M m; for (int i = 0; i < n; i++) { int v = c.choose(c.bound(2, 3)); src.Add(v); m.push_back({ v, i + 1 }); } int total = n; // computed when the end is reached
	LazyList<int> xs = From(src).Select([](int x) { calls++; return x; }); List<int> other; other.Add(1); other.Add(5); M r; int depth = 1 + c.choose(2);
	for (int d = 0; d < depth; d++)
	{
		r.clear(); int op = c.choose(10);
		switch (op)
		{
		case 0: c.log("Select"); xs = xs.Select([](int x) { return x + 1; }); for (auto& e : m) e.v++; break;
		case 1: c.log("Where"); xs = xs.Where([](int x) { return x % 2 == 0; }); for (auto& e : m) if (e.v % 2 == 0) r.push_back(e); m = r; break;
		case 2: { int k = c.choose(4); c.log("Take(%d)", k); xs = xs.Take(k); if ((int)m.size() >= k) { m.resize(k); total = k ? m.back().need : 0; } break; }
		case 3: { int k = 1 + c.choose(3); c.log("Skip(%d)", k); xs = xs.Skip(k); m.erase(m.begin(), m.begin() + std::min<int>(k, (int)m.size())); break; }
		case 4: c.log("Concat"); xs = xs.Concat(other); m.push_back({ 1, total }); m.push_back({ 5, total }); break;
		case 5: c.log("Concat in front"); xs = From(other).Concat(xs); r = { { 1, 0 }, { 5, 0 } }; r.insert(r.end(), m.begin(), m.end()); m = r; break;
		case 6: { int k = 1 + c.choose(2); c.log("Repeat(%d)", k); xs = xs.Repeat(k); for (int i = 0; i < k; i++) for (auto& e : m) r.push_back({ e.v, e.need + i * total }); m = r; total *= k; break; }
		case 7: c.log("Distinct"); xs = xs.Distinct(); for (auto& e : m) { bool seen = false; for (auto& f : r) seen = seen || f.v == e.v; if (!seen) r.push_back(e); } m = r; break;
		case 8: case 9: c.log(op == 8 ? "Intersect" : "Except"); xs = op == 8 ? xs.Intersect(other) : xs.Except(other); for (auto& e : m) { bool seen = (e.v == 1 || e.v == 5) != (op == 8); for (auto& f : r) seen = seen || f.v == e.v; if (!seen) r.push_back(e); } m = r; break;
		}
		c.step(); MC_CHECK(calls == 0, "building the pipeline computed %d elements", calls);
	}
	c.state(mc::mix(m.size(), total)); int len = (int)m.size(), k = c.choose(len + 1);
	auto e = Ptr(xs.CreateEnumerator()); MC_CHECK(calls == 0, "creating an enumerator computed %d elements", calls);
	for (int i = 0; i < k; i++) { MC_CHECK(e->Next() && e->Index() == i && e->Current() == m[i].v, "element %d is wrong", i); MC_CHECK(calls <= m[i].need, "%d elements computed to read element %d of the result, %d are needed", calls, i, m[i].need); c.step(); }
	int before = calls; auto f = Ptr(e->Clone()); MC_CHECK(calls == before, "cloning an enumerator computed %d elements", calls - before);
	for (int i = k; i < len; i++) { MC_CHECK(f->Next() && f->Current() == m[i].v, "element %d of a clone is wrong", i); MC_CHECK(calls - before <= m[i].need - (k ? m[k - 1].need : 0), "%d elements computed to go from element %d to %d", calls - before, k - 1, i); }
	before = calls; e->Reset(); MC_CHECK(calls == before, "resetting an enumerator computed %d elements", calls - before);
	calls = 0; if (len) { MC_CHECK(xs.First() == m[0].v && calls <= m[0].need, "First computed %d elements, %d are needed", calls, m[0].need); calls = 0; MC_CHECK(!xs.IsEmpty() && calls <= m[0].need, "IsEmpty computed %d elements, %d are needed", calls, m[0].need); }
	calls = 0; MC_CHECK(xs.Count() == len && calls <= total, "Count computed %d elements, there are %d", calls, total);
	if (depth == 1) // grouped: the groups appear when their first element does, and their elements when they are read
	{
		calls = 0; auto gs = xs.GroupBy([](int x) { return x / 2; }); MC_CHECK(calls == 0, "building a grouping computed %d elements", calls); std::vector<int> keys; M at; for (auto& x : m) if (!in(keys, x.v / 2)) { keys.push_back(x.v / 2); at.push_back(x); }
		auto g = Ptr(gs.CreateEnumerator()); for (size_t i = 0; i < at.size(); i++) { MC_CHECK(g->Next() && g->Current().key == at[i].v / 2, "group %zu is wrong", i); MC_CHECK(calls <= at[i].need, "%d elements computed to know group %zu, %d are needed", calls, i, at[i].need); int b = calls; LazyList<int> vs = g->Current().value; auto v = Ptr(vs.CreateEnumerator()); MC_CHECK(calls == b, "asking for a group computed %d elements", calls - b); MC_CHECK(v->Next() && v->Current() == at[i].v && calls - b <= at[i].need, "the first element of group %zu is wrong or %d elements were computed for it", i, calls - b); calls = b; c.step(); }
		calls = 0; LazyList<int> ys = From(other); auto ps = xs.Pairwise(ys); auto p = Ptr(ps.CreateEnumerator()); for (int i = 0; i < 2 && i < len; i++) MC_CHECK(p->Next() && p->Current().key == m[i].v && calls <= m[i].need, "pair %d is wrong or %d elements were computed for it, %d are needed", i, calls, m[i].need);
	}
}
// evaluating detaches from the functions and the source
MC_SCENARIO(evaluated, 16, 2)
{
	int n = c.choose(5), calls = 0; bool force = c.flip(); Seq m; LazyList<int> r;
	{ List<int> src; for (int i = 0; i < n; i++) { src.Add(i); m.push_back(i + 1); } r = From(src).Select([&calls](int x) { calls++; return x + 1; }).Evaluate(force); }
	int k = calls; MC_CHECK(k == n, "evaluation called the function %d times for %d elements", k, n); c.step(); c.state(n * 2 + force);
	MC_CHECK(enumerate(r) == m, "an evaluated result yields %s", show(enumerate(r)).c_str()); MC_CHECK(calls == k, "reading an evaluated result called the function");
	{ LazyList<int> s; { List<int> src; for (int i = 0; i < n; i++) src.Add(i + 1); s = From(src).Evaluate(true); } MC_CHECK(enumerate(s) == m, "a forced copy depends on its source"); }
}
// what holds its elements already is not copied unless that is asked for, through every operation that only selects positions
template<typename T, typename Src, typename Change> static void refers(Ctx& c, Src& src, Change change)
{
	int op = c.choose(6); bool force = c.flip(); c.log("operation %d, Evaluate(%s)", op, force ? "true" : "false"); c.state(op * 2 + force);
	LazyList<T> xs = From(src); switch (op) { case 1: xs = xs.Take(2); break; case 2: xs = xs.Skip(1); break; case 3: xs = xs.Repeat(2); break; case 4: xs = xs.Concat(src); break; case 5: xs = xs.Skip(1).Concat(xs.Take(2)).Repeat(2); break; }
	auto read = [](const LazyList<T>& l) { std::vector<T> r; for (auto x : l) r.push_back(x); return r; };
	auto before = read(xs); LazyList<T> ys = xs.Evaluate(force); MC_CHECK(read(ys) == before, "an evaluated copy differs"); c.step();
	change(); auto after = read(xs); MC_CHECK(after != before, "the pipeline does not read its source"); MC_CHECK(read(ys) == (force ? before : after), "%s", force ? "a forced copy follows its source" : "Evaluate() copied a pipeline over a container that needs no calculation"); c.step();
}
MC_SCENARIO(evaluated_refers, 16, 3)
{
	Array<int> a(3); List<int> l; SortedList<int> s; auto p = Ptr(new List<int>); int raw[3]; for (int i = 0; i < 3; i++) { a[i] = i; l.Add(i); s.Add(i); p->Add(i); raw[i] = i; }
	switch (c.choose(5))
	{
	case 0: c.log("array"); refers<int>(c, a, [&] { a[1] = 9; }); break;
	case 1: c.log("list"); refers<int>(c, l, [&] { l.Set(1, 9); }); break;
	case 2: c.log("sorted list"); refers<int>(c, s, [&] { s.Remove(1); s.Add(-1); }); break;
	case 3: c.log("owned list"); { LazyList<int> o = p; refers<int>(c, o, [&] { p->Set(1, 9); }); } break;
	case 4: c.log("plain array"); { LazyList<int> o = From(raw); refers<int>(c, o, [&] { raw[1] = 9; }); } break;
	}
}
// the same for every pipeline: evaluated once, it never calls a function again; a forced copy does not follow its source
MC_SCENARIO(evaluated_any, 64, 3)
{
	int n = c.choose(4); Seq m; auto src = Ptr(new List<int>); for (int i = 0; i < n; i++) { int v = (i * 2 + 1) % 3; m.push_back(v); src->Add(v); }
	Env<int> env; LazyList<int> xs = *src.Obj(); int depth = c.bound(2, 3); bool force = c.flip();
	for (int d = 0; d < depth; d++) { apply(c, env, c.choose(Ops), xs, m); c.step(); }
	c.log("Evaluate(%s)", force ? "true" : "false"); xs = xs.Evaluate(force); c.state(mc::hashSeq(m, force)); int k = fnCalls;
	if (force) { for (int i = 0; i < n; i++) src->Set(i, 77); src->Add(78); for (int i = 0; i < env.other.Count(); i++) env.other.Set(i, 79); src = nullptr; }
	MC_CHECK(enumerate(xs) == m, "an evaluated pipeline yields %s, expected %s", show(enumerate(xs)).c_str(), show(m).c_str());
	MC_CHECK(xs.Count() == (vint)m.size() && xs.Reverse().Count() == (vint)m.size() && xs.Evaluate().Count() == (vint)m.size(), "an evaluated pipeline has a wrong count");
	MC_CHECK(fnCalls == k, "reading an evaluated pipeline called its functions %d times", fnCalls - k);
}
// pairs of two sequences, each of them computed or not, and of their groups
MC_SCENARIO(evaluated_pairs, 16, 2)
{
	static int calls; calls = 0; int n = c.choose(4), k = c.choose(4); bool ca = c.flip(), cb = c.flip(), force = c.flip(); c.state(((n * 4 + k) * 2 + ca) * 4 + cb * 2 + force); c.log("%d elements%s with %d%s, Evaluate(%s)", n, ca ? " computed" : "", k, cb ? " computed" : "", force ? "true" : "false"); c.step();
	auto a = Ptr(new List<int>), b = Ptr(new List<int>); for (int i = 0; i < n; i++) a->Add(i); for (int i = 0; i < k; i++) b->Add(10 + i); auto f = [](int x) { calls++; return x; };
	LazyList<int> xs = *a.Obj(), ys = *b.Obj(); if (ca) xs = xs.Select(f); if (cb) ys = ys.Select(f); auto ps = xs.Pairwise(ys).Evaluate(force); auto gs = xs.Concat(ys).GroupBy([](int x) { return x % 2; }).Evaluate(force); int before = calls; int m = std::min(n, k);
	if (force) for (int i = 0; i < n; i++) a->Set(i, 77);
	for (int round = 0; round < 2; round++) { int i = 0; for (auto p : ps) { MC_CHECK(i < m && p.key == i && p.value == 10 + i, "pair %d is (%d, %d)", i, p.key, p.value); i++; } MC_CHECK(i == m && ps.Count() == m, "%d pairs, expected %d", i, m); }
	MC_CHECK(calls == before, "reading evaluated pairs computed %d elements again", calls - before); vint groups = gs.Count(); MC_CHECK(groups == (n + k == 0 ? 0 : n + k == 1 || (n == 1 && k == 1) ? 1 : 2) && calls == before, "reading evaluated groups: %ld groups, %d elements computed again", (long)groups, calls - before);
}
struct Base { int id; Base(int i) :id(i) {} virtual ~Base() {} };
struct D1 : Base { D1(int i) :Base(i) {} }; struct D2 : Base { D2(int i) :Base(i) {} }; struct D3 : D1 { D3(int i) :D1(i) {} };
MC_SCENARIO(types, 16, 3)
{
	int n = c.choose(c.bound(6, 7)); List<Ptr<Base>> src; Seq kinds;
	for (int i = 0; i < n; i++) { int k = c.choose(4); kinds.push_back(k); src.Add(k == 0 ? Ptr<Base>(new D1(i)) : k == 1 ? Ptr<Base>(new D2(i)) : k == 2 ? Ptr<Base>(new D3(i)) : Ptr<Base>(nullptr)); }
	c.step(); c.state(mc::hashSeq(kinds)); Seq d1, d2, got;
	for (int i = 0; i < n; i++) { if (kinds[i] == 0 || kinds[i] == 2) d1.push_back(i); if (kinds[i] == 1) d2.push_back(i); }
	for (auto x : From(src).FindType<D1>()) got.push_back(x->id); MC_CHECK(got == d1, "FindType yields %s", show(got).c_str()); got.clear();
	for (auto x : From(src).FindType<D2>()) got.push_back(x->id); MC_CHECK(got == d2, "FindType yields %s", show(got).c_str());
	int i = 0; for (auto x : From(src).Cast<D1>()) { bool is = kinds[i] == 0 || kinds[i] == 2; MC_CHECK((x.Obj() != nullptr) == is && (!is || x.Obj() == src[i].Obj()), "Cast of element %d", i); i++; } MC_CHECK(i == n, "Cast yields %d of %d", i, n);
	Seq seen; for (auto x : From(src).Concat(src).Distinct()) seen.push_back(x ? x->id : -1); Seq e; for (int j = 0; j < n; j++) { int v = kinds[j] == 3 ? -1 : j; if (!in(e, v)) e.push_back(v); } MC_CHECK(seen == e, "distinct pointers: %s", show(seen).c_str());
}
MC_SCENARIO(group_by, 32, 3)
{
	int n = c.choose(c.bound(7, 8)); Seq m; List<int> src; for (int i = 0; i < n; i++) { int v = c.choose(4); m.push_back(v); src.Add(v); }
	c.step(); c.state(mc::hashSeq(m)); Seq keys; for (int v : m) if (!in(keys, v / 2)) keys.push_back(v / 2); size_t at = 0;
	for (auto p : From(src).GroupBy([](int x) { return x / 2; })) { Seq e; for (int v : m) if (v / 2 == p.key) e.push_back(v); MC_CHECK(at < keys.size() && p.key == keys[at], "group %zu has key %d", at, p.key); MC_CHECK(enumerate(p.value) == e, "group %d is %s, expected %s", p.key, show(enumerate(p.value)).c_str(), show(e).c_str()); at++; }
	MC_CHECK(at == keys.size(), "%zu groups, expected %zu", at, keys.size());
}
MC_SCENARIO(comparison, 64, 4)
{
	auto seq = [&](List<int>& l) { Seq m; int n = c.choose(c.bound(5, 6)); for (int i = 0; i < n; i++) { int v = c.choose(3); m.push_back(v); l.Add(v); } return m; };
	List<int> a, b; Seq x = seq(a), y = seq(b); c.step(); c.state(mc::hashSeq(x, mc::hashSeq(y)));
	auto r = CompareEnumerable(a, b); auto e = x < y ? -1 : x > y ? 1 : 0;
	MC_CHECK((r < 0) == (e < 0) && (r > 0) == (e > 0) && (r == 0) == (e == 0), "comparing %s with %s", show(x).c_str(), show(y).c_str());
	auto q = CompareEnumerable(From(a).Select([](int v) { return v; }), From(b).Where([](int) { return true; })); MC_CHECK((q < 0) == (e < 0) && (q > 0) == (e > 0), "comparing pipelines of %s and %s", show(x).c_str(), show(y).c_str());
}
// arguments and elements next to the limits of vint
MC_SCENARIO(extremes, 32, 3)
{
	const vint M = std::numeric_limits<vint>::max(), N = std::numeric_limits<vint>::min(); auto& v = extremesOf<vint>(); int K = (int)v.size(), n = c.choose(4); std::vector<vint> m; List<vint> src; for (int i = 0; i < n; i++) { m.push_back(v[c.choose(K)]); src.Add(m.back()); } typedef std::vector<vint> V; auto all = [](auto&& xs) { V r; for (auto x : xs) { r.push_back(x); if (r.size() > 100) break; } return r; };
	c.state(mc::hashBytes(m.data(), m.size() * sizeof(vint))); c.log("%d elements", n);
	for (vint k : { N, N + 1, (vint)-1 }) MC_CHECK(all(From(src).Take(k)).empty() && all(From(src).Repeat(k)).empty() && all(From(src).Skip(k)) == m, "Take, Skip or Repeat with a negative count"); for (vint k : { M, M - 1 }) MC_CHECK(all(From(src).Take(k)) == m && all(From(src).Skip(k)).empty() && all(From(src).Skip(1).Take(k)) == (n ? V(m.begin() + 1, m.end()) : V()), "Take or Skip with a huge count");
	if (n) { auto r = From(src).Repeat(M).Take(2 * n + 1); V e; for (int i = 0; i < 2 * n + 1; i++) e.push_back(m[i % n]); MC_CHECK(all(r) == e, "Repeat with a huge count"); MC_CHECK(From(src).Max() == *std::max_element(m.begin(), m.end()) && From(src).Min() == *std::min_element(m.begin(), m.end()), "Max or Min of extremes"); }
	V d; for (vint x : m) if (std::find(d.begin(), d.end(), x) == d.end()) d.push_back(x); MC_CHECK(all(From(src).Distinct()) == d, "Distinct of extremes"); V s = m; std::sort(s.begin(), s.end()); MC_CHECK(all(From(src).OrderBySelf()) == s, "OrderBy of extremes"); MC_CHECK(all(Range<vint>(M - 3, 3)) == (V{ M - 3, M - 2, M - 1 }) && all(Range<vint>(N, 2)) == (V{ N, N + 1 }), "Range at the limits"); c.step(12);
	for (int i = 0; i < n; i++) { List<vint> a, b; a.Add(m[i]); b.Add(m[0]); auto r = CompareEnumerable(a, b); MC_CHECK((r < 0) == (m[i] < m[0]) && (r > 0) == (m[i] > m[0]), "comparison of extremes"); }
}
// sources of middle size in which one or two elements differ from the rest, at every place
MC_SCENARIO(different, 64, 4)
{
	int n = 1 + c.choose(c.bound(24, 48)), rest = c.choose(2), i = c.choose(n), j = i + c.choose(n - i); Seq m(n, rest * 2); m[i] = 1; m[j] = 3; List<int> src; for (int v : m) src.Add(v); c.log("source %s", show(m).c_str()); Env<int> env; LazyList<int> xs = src; apply(c, env, c.choose(Ops), xs, m); c.step(); c.state(mc::hashSeq(m)); readAll(xs, m);
}
// elements that are not comparable with everything
MC_SCENARIO(comparison_unordered, 16, 3)
{
	static const double vs[] = { -1.5, -0.0, 0.0, 2, std::numeric_limits<double>::quiet_NaN() }; typedef std::partial_ordering PO; int top = c.bound(4, 5); bool lazy = c.flip();
	auto seq = [&](List<double>& l) { std::vector<int> m; int n = c.choose(top); for (int i = 0; i < n; i++) { int v = c.choose(5); m.push_back(v); l.Add(vs[v]); } return m; };
	List<double> a, b; auto x = seq(a), y = seq(b); c.step(); c.state(mc::hashSeq(x, mc::hashSeq(y, lazy)));
	auto lex = [&](const std::vector<int>& x, const std::vector<int>& y) { for (size_t i = 0; i < x.size() && i < y.size(); i++) { PO o = vs[x[i]] <=> vs[y[i]]; if (o != 0) return o; } return PO(x.size() <=> y.size()); };
	PO r = lazy ? CompareEnumerable(From(a), From(b)) : CompareEnumerable(a, b), s = CompareEnumerable(a, a); MC_CHECK(r == lex(x, y), "comparing %s with %s", show(x).c_str(), show(y).c_str()); MC_CHECK(s == lex(x, x), "comparing %s with itself", show(x).c_str());
}
// sets of shared pointers go by identity, and keep no object longer than the sequence
MC_SCENARIO(pointer_sets, 32, 4)
{
	{
		typedef Ptr<Tracked> P; P objects[4] = { P(new Tracked(1)), P(new Tracked(1)), P(new Tracked(0)), P() }; int top = c.bound(4, 5);
		auto seq = [&](List<P>& l) { Seq m; int n = c.choose(top); for (int i = 0; i < n; i++) { int v = c.choose(4); m.push_back(v); l.Add(objects[v]); } return m; };
		int op = c.choose(4); List<P> a, b; Seq x = seq(a), y, r; if (op) y = seq(b); c.log("operation %d of %s and %s", op, show(x).c_str(), show(y).c_str());
		auto id = [&](const P& p) { for (int i = 0; i < 4; i++) if (objects[i].Obj() == p.Obj()) return i; return -1; };
		if (op == 1) { r = x; r.insert(r.end(), y.begin(), y.end()); r = distinctOf(r); } else for (int v : distinctOf(x)) if (op == 0 || in(y, v) == (op == 2)) r.push_back(v);
		LazyList<P> z = op == 0 ? From(a).Distinct() : op == 1 ? From(a).Union(b) : op == 2 ? From(a).Intersect(b) : From(a).Except(b);
		for (int round = 0; round < 2; round++) { Seq got; for (auto p : z) got.push_back(id(p)); c.step(); MC_CHECK(got == r, "the result is %s, expected %s", show(got).c_str(), show(r).c_str()); }
		c.state(mc::hashSeq(x, mc::hashSeq(y, op)));
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld objects are kept", mc::Registry::live());
}
// a sequence replaced by the one that a function inside it owns
struct Later { Tracked id{ 1 }; LazyList<int> next; };
MC_SCENARIO(from_inside, 4, 3)
{
	int n = c.choose(c.bound(4, 6)), form = c.choose(3); bool moving = c.flip();
	{
		List<int> xs; for (int i = 0; i < n; i++) xs.Add(i);
		auto later = Ptr(new Later); later->next = From(xs).Select([](int x) { return x + 10; }); auto* at = later.Obj(); LazyList<int> ys;
		if (form == 0) ys = From(xs).Select([later](int x) { return x; }); else if (form == 1) ys = From(xs).Where([later](int x) { return x > 0; }); else ys = From(xs).Concat(From(xs).Where([later](int) { return true; }));
		later = nullptr; c.log("a sequence of form %d over %d elements replaced by the one its function owns (%s)", form, n, moving ? "moved" : "copied");
		if (moving) ys = std::move(at->next); else ys = at->next;
		c.step(); checkLive<Tracked>(0, "after the assignment"); MC_CHECK(ys.Count() == n, "Count %ld, expected %d", (long)ys.Count(), n); int k = 0; for (auto y : ys) { MC_CHECK(y == 10 + k, "element %d is %d", k, y); k++; } MC_CHECK(k == n, "enumerates %d", k); c.state(mc::mix(n, form * 2 + moving));
	}
	checkLive<Tracked>(0, "after destruction");
}
