// P18: CopyFrom transfers every element, in order, from every kind of collection into every kind of container,
// replacing or appending, and leaves the source untouched.
#include "coll.h"
#include <string>

// ---- sources of a sequence ----
template<typename T> struct Source
{
	const Seq m; // what the source yields
	List<T> list; Array<T> array; SortedList<T> sorted; std::vector<T> raw; Seq sortedSeq;
	Source(const Seq& _m) :m(_m) { for (int v : m) { list.Add(El<T>::make(v)); sorted.Add(El<T>::make(v)); raw.push_back(El<T>::make(v)); } array.Resize((vint)m.size()); for (size_t i = 0; i < m.size(); i++) array[i] = El<T>::make(m[i]); sortedSeq = m; std::sort(sortedSeq.begin(), sortedSeq.end()); }
	void unchanged() { sameSeq(list, m, "the source list"); sameSeq(array, m, "the source array"); sameSeq(sorted, sortedSeq, "the source sorted list"); for (size_t i = 0; i < m.size(); i++) MC_CHECK(El<T>::read(raw[i]) == m[i], "the source buffer changed"); }
};
const int Kinds = 8;
template<typename T, typename D> Seq copyInto(Ctx& c, int kind, D& d, Source<T>& s, bool append)
{
	static const char* names[] = { "list", "array", "sorted list", "lazy list", "buffer and count", "buffer range", "lazy Where", "lazy Reverse" };
	c.log("CopyFrom(%s, append=%d) of %s", names[kind], append, show(s.m).c_str());
	switch (kind)
	{
	case 0: CopyFrom(d, s.list, append); return s.m;
	case 1: CopyFrom(d, s.array, append); return s.m;
	case 2: CopyFrom(d, s.sorted, append); return s.sortedSeq;
	case 3: CopyFrom(d, From(s.list).Select([](const T& x) { return x; }), append); return s.m;
	case 4: CopyFrom(d, s.raw.data(), (vint)s.m.size(), append); return s.m;
	case 5: CopyFrom(d, s.raw.data(), s.raw.data() + s.m.size(), append); return s.m;
	case 6: { Seq r; for (int v : s.m) if (v % 2 == 0) r.push_back(v); CopyFrom(d, From(s.array).Where([](const T& x) { return El<T>::read(x) % 2 == 0; }), append); return r; }
	default: { Seq r(s.m.rbegin(), s.m.rend()); CopyFrom(d, From(s.list).Reverse(), append); return r; }
	}
}
static Seq chooseSeq(Ctx& c, int maxLen, int alphabet) { int n = c.choose(maxLen + 1); Seq m; for (int i = 0; i < n; i++) m.push_back(c.choose(alphabet)); return m; }
static Seq joined(const Seq& a, const Seq& b, bool append) { if (!append) return b; Seq r = a; r.insert(r.end(), b.begin(), b.end()); return r; }

template<typename T> void sequences(Ctx& c, int maxOld, int maxLen, int alphabet)
{
	{
		int dk = c.choose(3), kind = c.choose(Kinds); bool append = c.flip(); int old = c.choose(maxOld + 1); Seq before; for (int i = 0; i < old; i++) before.push_back(20 + i);
		Source<T> s(chooseSeq(c, maxLen, alphabet)); long live = (long)s.m.size() * 4;
		if (dk == 0) { List<T> d; for (int v : before) d.Add(El<T>::make(v)); Seq e = joined(before, copyInto(c, kind, d, s, append), append); sameSeq(d, e, "the target list"); checkLive<T>(live + (long)e.size(), "after copying"); d.Add(El<T>::make(1)); e.push_back(1); sameSeq(d, e, "the target list after Add"); }
		else if (dk == 1) { Array<T> d((vint)before.size()); for (size_t i = 0; i < before.size(); i++) d[i] = El<T>::make(before[i]); Seq e = joined(before, copyInto(c, kind, d, s, append), append); sameSeq(d, e, "the target array"); checkLive<T>(live + (long)e.size(), "after copying"); }
		else { SortedList<T> d; for (int v : before) d.Add(El<T>::make(v)); Seq e = joined(before, copyInto(c, kind, d, s, append), append); std::sort(e.begin(), e.end()); sameSeq(d, e, "the target sorted list"); checkLive<T>(live + (long)e.size(), "after copying"); }
		s.unchanged(); c.step(); c.state(mc::mix(mc::hashSeq(s.m), dk * 100 + kind * 10 + append * 5 + old));
	}
	checkLive<T>(0, "after destruction");
}
MC_SCENARIO(sequences_tracked, 64, 4) { sequences<Tracked>(c, 3, c.bound(4, 5), 3); }
MC_SCENARIO(sequences_int, 64, 4) { sequences<int>(c, 3, c.bound(4, 5), 3); }
MC_SCENARIO(sequences_wstring, 64, 4) { sequences<WString>(c, 2, c.bound(3, 4), 3); }
MC_SCENARIO(sequences_placed, 64, 4) { sequences<Placed>(c, 2, c.bound(3, 4), 3); }
static void sized(Ctx& c, int old, int n)
{
	{
		int dk = c.choose(2), kind = c.choose(Kinds); bool append = c.flip(); Seq before, m; for (int i = 0; i < old; i++) before.push_back(500 + i); for (int i = 0; i < n; i++) m.push_back(i); Source<Tracked> s(m);
		if (dk == 0) { List<Tracked> d; for (int v : before) d.Add(Tracked(v)); Seq e = joined(before, copyInto(c, kind, d, s, append), append); sameSeq(d, e, "the target list"); }
		else { Array<Tracked> d((vint)before.size()); for (size_t i = 0; i < before.size(); i++) d[i] = Tracked(before[i]); Seq e = joined(before, copyInto(c, kind, d, s, append), append); sameSeq(d, e, "the target array"); }
		c.step(); c.state(mc::mix(dk * 100 + kind * 10 + append, old * 100 + n));
	}
	checkLive<Tracked>(0, "after destruction");
}
MC_SCENARIO(sizes, 32, 3) { int old = c.choose(c.bound(12, 20)), n = c.choose(c.bound(20, 40)); sized(c, old, n); }
MC_SCENARIO(large, 32, 3) { int old = c.flip() ? bigSize(c, 20, c.bound(600, 2100)) : 0, n = bigSize(c, 20, c.bound(1100, 4200)); sized(c, old, n); }
// between containers of different elements every value is converted
struct BaseA { int a = 7; virtual ~BaseA() {} };
struct BaseB { Tracked t; BaseB(int v) :t(v) {} virtual ~BaseB() {} };
struct Both : BaseA, BaseB { Both(int v) :BaseB(v) {} };
template<typename D, typename S, typename V> void convertingInto(Ctx& c, const V& values, D&& same, int old)
{
	using DE = std::remove_cvref_t<decltype(D::target())>; int dk = c.choose(3), kind = c.choose(5), n = c.choose(4); bool append = c.flip(); std::vector<S> m; for (int i = 0; i < n; i++) m.push_back(values[c.choose((int)values.size())]); c.log("target %d, source %d, %d elements, append=%d after %d", dk, kind, n, append, old);
	List<S> list; Array<S> array(n); for (int i = 0; i < n; i++) { list.Add(m[i]); array[i] = m[i]; }
	auto copy = [&](auto& d) { switch (kind) { case 0: CopyFrom(d, list, append); break; case 1: CopyFrom(d, array, append); break; case 2: CopyFrom(d, From(list).Select([](const S& x) { return x; }), append); break; case 3: CopyFrom(d, m.data(), (vint)n, append); break; default: CopyFrom(d, m.data(), m.data() + n, append); break; } };
	auto check = [&](auto& d) { int k = append ? old : 0; MC_CHECK(d.Count() == k + n, "%ld elements, expected %d", (long)d.Count(), k + n); for (int i = 0; i < k; i++) MC_CHECK(same.isOld(d[i]), "an old element changed"); for (int i = 0; i < n; i++) MC_CHECK(same(d[k + i], m[i]), "element %d was not converted", i); };
	if (dk == 0) { List<DE> d; for (int i = 0; i < old; i++) d.Add(D::target()); copy(d); check(d); }
	else if (dk == 1) { Array<DE> d(old); for (int i = 0; i < old; i++) d[i] = D::target(); copy(d); check(d); }
	else { SortedList<DE> d; copy(d); MC_CHECK(d.Count() == n, "%ld elements in the sorted list, expected %d", (long)d.Count(), n); for (int i = 0; i < n; i++) { bool found = false; for (vint j = 0; j < d.Count(); j++) if (same(d[j], m[i])) found = true; MC_CHECK(found, "element %d is not in the sorted list", i); if (i) MC_CHECK(!(d[i] < d[i - 1]), "the sorted list is not sorted"); } }
	c.step(); c.state(mc::mix(dk * 1000 + kind * 100 + append * 50 + old * 10 + n, m.size()));
}
template<typename DE, typename S> struct SameNumber { static DE target() { return (DE)9; } bool isOld(const DE& d)const { return d == (DE)9; } bool operator()(const DE& d, const S& s)const { return d == (DE)s; } };
template<typename B, typename S> struct SameObject { static Ptr<B> target() { return Ptr<B>(); } bool isOld(const Ptr<B>& d)const { return !d; } bool operator()(const Ptr<B>& d, const Ptr<S>& s)const { return s ? d.Obj() == (B*)s.Obj() : !d; } };
MC_SCENARIO(converting, 64, 4)
{
	int k = c.choose(12), old = c.choose(3);
	switch (k)
	{
	case 0: convertingInto<SameNumber<vint64_t, double>, double>(c, std::vector<double>{ 0, 1, -2.5, 1e15 }, {}, old); break;
	case 1: convertingInto<SameNumber<double, vint64_t>, vint64_t>(c, std::vector<vint64_t>{ 0, 1, -2, 1LL << 40 }, {}, old); break;
	case 2: convertingInto<SameNumber<vint32_t, float>, float>(c, std::vector<float>{ 0, 1, -2.5f, 65536 }, {}, old); break;
	case 3: convertingInto<SameNumber<float, vint32_t>, vint32_t>(c, std::vector<vint32_t>{ 0, 1, -2, 65536 }, {}, old); break;
	case 4: convertingInto<SameNumber<vint64_t, vint32_t>, vint32_t>(c, std::vector<vint32_t>{ 0, 1, -2, 65536 }, {}, old); break;
	case 5: convertingInto<SameNumber<vint8_t, vint64_t>, vint64_t>(c, std::vector<vint64_t>{ 0, 1, -2, 100 }, {}, old); break;
	case 6: convertingInto<SameNumber<wchar_t, char>, char>(c, std::vector<char>{ 'a', 'b', 1, 127 }, {}, old); break;
	case 7: convertingInto<SameNumber<vuint16_t, char16_t>, char16_t>(c, std::vector<char16_t>{ 0, 1, 0x4e00, 0xffff }, {}, old); break;
	case 8: convertingInto<SameNumber<bool, vint8_t>, vint8_t>(c, std::vector<vint8_t>{ 0, 1, 2, -1 }, {}, old); break;
	case 9: convertingInto<SameNumber<vuint64_t, vint64_t>, vint64_t>(c, std::vector<vint64_t>{ 0, 1, -2, 1LL << 40 }, {}, old); break;
	case 10: convertingInto<SameObject<BaseA, Both>, Ptr<Both>>(c, std::vector<Ptr<Both>>{ Ptr(new Both(1)), Ptr<Both>(), Ptr(new Both(2)) }, {}, old); break;
	default: convertingInto<SameObject<BaseB, Both>, Ptr<Both>>(c, std::vector<Ptr<Both>>{ Ptr(new Both(1)), Ptr<Both>(), Ptr(new Both(2)) }, {}, old); break;
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld objects never destroyed", mc::Registry::live());
}
// long strings
MC_SCENARIO(long_strings, 16, 2)
{
	int old = c.flip() ? bigSize(c, 20, 300) : 0, n = bigSize(c, 20, c.bound(1100, 5000)); bool append = c.flip(); int k = c.choose(5); std::wstring a, b; for (int i = 0; i < old; i++) a += (wchar_t)(L'a' + i % 26); for (int i = 0; i < n; i++) b += (wchar_t)(0x400 + i); std::wstring e = append ? a + b : b; c.log("%d + %d characters, kind %d", old, n, k);
	WString A = WString::CopyFrom(a.c_str(), old), B = WString::CopyFrom(b.c_str(), n); List<wchar_t> l; Array<wchar_t> r; auto same = [&](auto& d) { MC_CHECK(d.Count() == (vint)e.size(), "Count %ld, expected %zu", (long)d.Count(), e.size()); for (size_t i = 0; i < e.size(); i++) MC_CHECK(d[(vint)i] == e[i], "element %zu", i); };
	if (k == 0) { for (auto x : a) l.Add(x); CopyFrom(l, B, append); same(l); } else if (k == 1) { r.Resize(old); for (int i = 0; i < old; i++) r[i] = a[i]; CopyFrom(r, B, append); same(r); }
	else { WString d = A; if (k == 2) { for (auto x : b) l.Add(x); CopyFrom(d, l, append); } else if (k == 3) { r.Resize(n); for (int i = 0; i < n; i++) r[i] = b[i]; CopyFrom(d, r, append); } else { for (auto x : b) l.Add(x); CopyFrom(d, From(l).Select([](wchar_t x) { return x; }), append); }
		MC_CHECK(d.Length() == (vint)e.size() && wmemcmp(d.Buffer(), e.c_str(), e.size() + 1) == 0, "a string of %ld characters, expected %zu", (long)d.Length(), e.size()); MC_CHECK(A.Length() == old && wmemcmp(A.Buffer(), a.c_str(), old + 1) == 0, "the old string changed"); }
	c.step(); c.state(mc::mix(old * 10000 + n, k * 2 + append));
}
// appending a collection to itself doubles it
MC_SCENARIO(self_append, 16, 2)
{
	{
		int kind = c.choose(3); Seq m = chooseSeq(c, c.bound(7, 9), 2); Seq e = m; e.insert(e.end(), m.begin(), m.end()); c.log("CopyFrom(xs, xs, true) of %s", show(m).c_str());
		if (kind == 0) { List<Tracked> xs; for (int v : m) xs.Add(Tracked(v)); CopyFrom(xs, xs, true); sameSeq(xs, e, "the list"); }
		else if (kind == 1) { Array<Tracked> xs((vint)m.size()); for (size_t i = 0; i < m.size(); i++) xs[i] = Tracked(m[i]); CopyFrom(xs, xs, true); sameSeq(xs, e, "the array"); }
		else { List<Tracked> xs; for (int v : m) xs.Add(Tracked(v)); if (m.empty()) return; CopyFrom(xs, From(xs).Evaluate(true).Reverse(), false); std::reverse(m.begin(), m.end()); sameSeq(xs, m, "a list replaced by its own reverse"); }
		c.step(); c.state(mc::hashSeq(m) + kind);
	}
	checkLive<Tracked>(0, "after destruction");
}
// a collection replaced by itself stays as it is, and appended to itself holds everything twice, whatever kind it is
MC_SCENARIO(itself, 16, 3)
{
	{
		int kind = c.choose(5); bool append = c.flip(); Seq m = chooseSeq(c, c.bound(4, 5), 3); Seq e = m; if (append) e.insert(e.end(), m.begin(), m.end()); c.log("CopyFrom(xs, xs, %d) of %s, kind %d", append, show(m).c_str(), kind);
		if (kind == 0) { List<Tracked> xs; for (int v : m) xs.Add(Tracked(v)); CopyFrom(xs, xs, append); sameSeq(xs, e, "the list"); }
		else if (kind == 1) { Array<Tracked> xs((vint)m.size()); for (size_t i = 0; i < m.size(); i++) xs[i] = Tracked(m[i]); CopyFrom(xs, xs, append); sameSeq(xs, e, "the array"); }
		else if (kind == 2) { SortedList<Tracked> xs; for (int v : m) xs.Add(Tracked(v)); CopyFrom(xs, xs, append); std::sort(e.begin(), e.end()); sameSeq(xs, e, "the sorted list"); }
		else if (kind == 3) { Dictionary<Tracked, Tracked> xs; std::map<int, int> r; for (int v : m) { r[v] = 50 + (int)r.size(); xs.Set(Tracked(v), Tracked(r[v])); } CopyFrom(xs, xs, append); MC_CHECK(xs.Count() == (vint)r.size(), "the dictionary has %ld entries, expected %zu", (long)xs.Count(), r.size()); vint i = 0; for (auto& p : r) { MC_CHECK(xs.Keys()[i].v == p.first && xs.Values()[i].v == p.second, "entry %ld of the dictionary", (long)i); i++; } }
		else { Group<Tracked, Tracked> xs; std::map<int, Seq> r; int n = 0; for (int v : m) { xs.Add(Tracked(v), Tracked(50 + n)); r[v].push_back(50 + n++); } CopyFrom(xs, xs, append); if (append) for (auto& p : r) { Seq t = p.second; p.second.insert(p.second.end(), t.begin(), t.end()); } MC_CHECK(xs.Count() == (vint)r.size(), "the group has %ld keys, expected %zu", (long)xs.Count(), r.size()); vint i = 0; for (auto& p : r) { MC_CHECK(xs.Keys()[i].v == p.first, "key %ld of the group", (long)i); sameSeq(xs.GetByIndex(i), p.second, "values in the group"); i++; } }
		c.step(); c.state(mc::mix(mc::hashSeq(m), kind * 2 + append));
	}
	checkLive<Tracked>(0, "after destruction");
}
// ---- maps ----
typedef std::vector<std::pair<int, int>> Pairs;
template<typename P> void addTo(std::map<int, Seq>& g, const P& p) { g[p.first].push_back(p.second); }
MC_SCENARIO(maps, 64, 4)
{
	{
		int n = c.choose(c.bound(4, 5)); Pairs src; for (int i = 0; i < n; i++) { int k = c.choose(3), v = 10 + i; src.push_back({ k, v }); }
		int sk = c.choose(6), dk = c.choose(3); bool append = c.flip(); int old = c.choose(3); c.log("%d pairs, source %d, target %d, append=%d, %d old", n, sk, dk, append, old);
		Dictionary<Tracked, Tracked> sd; Group<Tracked, Tracked> sg; List<Pair<Tracked, Tracked>> sl; Array<Pair<Tracked, Tracked>> sa(n); Pairs yields;
		for (int i = 0; i < n; i++) { sd.Set(Tracked(src[i].first), Tracked(src[i].second)); sg.Add(Tracked(src[i].first), Tracked(src[i].second)); sl.Add(Pair<Tracked, Tracked>(Tracked(src[i].first), Tracked(src[i].second))); sa[i] = Pair<Tracked, Tracked>(Tracked(src[i].first), Tracked(src[i].second)); }
		std::map<int, int> rd; std::map<int, Seq> rg; for (auto& p : src) { rd[p.first] = p.second; rg[p.first].push_back(p.second); }
		if (sk == 0) for (auto& p : rd) yields.push_back(p); else if (sk == 1) { for (auto& p : rg) for (int v : p.second) yields.push_back({ p.first, v }); } else yields = src;
		auto copy = [&](auto& d)
		{
			switch (sk)
			{
			case 0: CopyFrom(d, sd, append); break;
			case 1: CopyFrom(d, sg, append); break;
			case 2: CopyFrom(d, sl, append); break;
			case 3: CopyFrom(d, sa, append); break;
			case 4: CopyFrom(d, From(sl).Select([](const Pair<Tracked, Tracked>& p) { return p; }), append); break;
			default: if (n) CopyFrom(d, &sl[0], (vint)n, append); else CopyFrom(d, (const Pair<Tracked, Tracked>*)nullptr, (vint)0, append); break;
			}
		};
		if (dk == 0)
		{
			Dictionary<Tracked, Tracked> d; std::map<int, int> e; for (int i = 0; i < old; i++) { d.Add(Tracked(i + 1), Tracked(90 + i)); e[i + 1] = 90 + i; } if (!append) e.clear(); for (auto& p : yields) e[p.first] = p.second;
			copy(d); MC_CHECK(d.Count() == (vint)e.size(), "the dictionary has %ld entries, expected %zu", (long)d.Count(), e.size()); vint i = 0; for (auto& p : e) { MC_CHECK(d.Keys()[i].v == p.first && d.Values()[i].v == p.second, "entry %ld of the dictionary is (%d,%d), expected (%d,%d)", (long)i, d.Keys()[i].v, d.Values()[i].v, p.first, p.second); i++; }
		}
		else if (dk == 1)
		{
			if (sk == 0 || sk == 1 || sk >= 2) {
				Group<Tracked, Tracked> d; std::map<int, Seq> e; for (int i = 0; i < old; i++) { d.Add(Tracked(i + 1), Tracked(90 + i)); if (append) e[i + 1].push_back(90 + i); } for (auto& p : yields) e[p.first].push_back(p.second);
				copy(d); MC_CHECK(d.Count() == (vint)e.size(), "the group has %ld keys, expected %zu", (long)d.Count(), e.size()); vint i = 0; for (auto& p : e) { MC_CHECK(d.Keys()[i].v == p.first, "key %ld of the group", (long)i); sameSeq(d.GetByIndex(i), p.second, "values in the group"); i++; }
			}
		}
		else
		{
			List<Pair<Tracked, Tracked>> d; Pairs e; for (int i = 0; i < old; i++) { d.Add(Pair<Tracked, Tracked>(Tracked(i + 1), Tracked(90 + i))); if (append) e.push_back({ i + 1, 90 + i }); } e.insert(e.end(), yields.begin(), yields.end());
			copy(d); MC_CHECK(d.Count() == (vint)e.size(), "the list has %ld pairs, expected %zu", (long)d.Count(), e.size()); for (size_t i = 0; i < e.size(); i++) MC_CHECK(d[i].key.v == e[i].first && d[i].value.v == e[i].second, "pair %zu of the list", i);
		}
		MC_CHECK(sd.Count() == (vint)rd.size() && sg.Count() == (vint)rg.size() && sl.Count() == n && sa.Count() == n, "copying changed a source"); c.step(); uint64_t h = sk * 1000 + dk * 100 + append * 10 + old; for (auto& p : src) h = mc::mix(h, p.first); c.state(h);
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld elements never destroyed", mc::Registry::live());
}
// ---- strings ----
MC_SCENARIO(strings, 64, 3)
{
	auto word = [&](int maxLen) { int n = c.choose(maxLen + 1); std::wstring s; for (int i = 0; i < n; i++) s += L"ab\x4e00"[c.choose(3)]; return s; };
	auto ws = [](const std::wstring& s) { return WString::CopyFrom(s.c_str(), (vint)s.size()); };
	auto same = [](const WString& w, const std::wstring& s) { return w.Length() == (vint)s.size() && wcscmp(w.Buffer(), s.c_str()) == 0; };
	std::wstring src = word(c.bound(4, 5)), old = word(2); bool append = c.flip(); std::wstring e = append ? old + src : src; WString S = ws(src), O = ws(old); int k = c.choose(6); c.log("string kind %d, %zu + %zu units, append=%d", k, old.size(), src.size(), append);
	if (k == 0) { List<wchar_t> d; for (auto x : old) d.Add(x); CopyFrom(d, S, append); MC_CHECK(d.Count() == (vint)e.size(), "count"); for (size_t i = 0; i < e.size(); i++) MC_CHECK(d[i] == e[i], "unit %zu of the list", i); }
	else if (k == 1) { Array<wchar_t> d((vint)old.size()); for (size_t i = 0; i < old.size(); i++) d[i] = old[i]; CopyFrom(d, S, append); MC_CHECK(d.Count() == (vint)e.size(), "count"); for (size_t i = 0; i < e.size(); i++) MC_CHECK(d[i] == e[i], "unit %zu of the array", i); }
	else if (k == 2) { List<wchar_t> s; for (auto x : src) s.Add(x); WString d = O; CopyFrom(d, s, append); MC_CHECK(same(d, e), "string from a list"); MC_CHECK(same(O, old), "copying into a string changed another one"); }
	else if (k == 3) { Array<wchar_t> s((vint)src.size()); for (size_t i = 0; i < src.size(); i++) s[i] = src[i]; WString d = O; CopyFrom(d, s, append); MC_CHECK(same(d, e), "string from an array"); }
	else if (k == 4) { List<wchar_t> s; for (auto x : src) s.Add(x); WString d = O; CopyFrom(d, From(s).Select([](wchar_t x) { return (wchar_t)(x + 1); }), append); std::wstring q = append ? old : L""; for (auto x : src) q += (wchar_t)(x + 1); MC_CHECK(same(d, q), "string from a lazy list"); }
	else { List<wchar_t> d; for (auto x : old) d.Add(x); WString part = (L"zz" + S + L"zz").Sub(2, S.Length()); CopyFrom(d, part, append); MC_CHECK(d.Count() == (vint)e.size(), "count"); for (size_t i = 0; i < e.size(); i++) MC_CHECK(d[i] == e[i], "unit %zu of the list from a part of a string", i); }
	MC_CHECK(same(S, src), "the source string changed"); c.step(); c.state(mc::mix(mc::hashSeq(src, mc::hashSeq(old)), k * 2 + append));
}
