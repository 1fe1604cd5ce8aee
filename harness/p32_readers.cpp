// P32: several threads read one unmodified object at the same time. Every pair of sequences of reading operations, every
// interleaving; a write to shared memory by any reading operation is a race.
#include <mcsched.h>
#include "coll.h"
#include <Primitives/Variant.h>
#include <Primitives/Function.h>
#include <Primitives/Event.h>
#include <Strings/Conversion.h>
#include <Primitives/DateTime.h>

typedef std::vector<std::function<int()>> Reads;
// every thread performs a sequence of the reading operations; each must give what it gives alone
static void readers(Ctx& c, const Reads& ops, int length, int preemptions, int threads = 2)
{
	std::vector<std::vector<int>> prog(threads); for (auto& p : prog) for (int i = 0; i < length; i++) p.push_back(c.choose((int)ops.size()));
	for (int t = 1; t < threads; t++) if (prog[t] < prog[t - 1]) return;
	// nobody has read the object before the threads do (it might remember an earlier answer), or everything has been read once
	bool before = c.flip(); if (before) preemptions = 0;
	std::vector<int> alone; if (before) for (auto& f : ops) alone.push_back(f());
	uint64_t h = before ? 2 : 1; for (auto& p : prog) { std::string s; for (int x : p) { h = mc::mix(h, x); s += " " + std::to_string(x); } c.log("reading operations:%s", s.c_str()); }
	std::vector<std::function<void()>> bodies; std::vector<std::vector<int>> got(threads);
	for (int t = 0; t < threads; t++) { got[t].resize(length); bodies.push_back([&, t] { for (int i = 0; i < length; i++) { int r = ops[prog[t][i]](); got[t][i] = r; } }); }
	c.state(h); sched::run(c, std::move(bodies), preemptions, h);
	std::vector<int> after; for (auto& f : ops) after.push_back(f());
	for (int t = 0; t < threads; t++) for (int i = 0; i < length; i++) MC_CHECK(got[t][i] == after[prog[t][i]], "thread %d: operation %d gives %d, alone it gives %d", t + 1, prog[t][i], got[t][i], after[prog[t][i]]);
	for (size_t i = 0; i < ops.size(); i++) { MC_CHECK(!before || alone[i] == after[i], "operation %zu gives something else afterwards", i); MC_CHECK(ops[i]() == after[i], "operation %zu gives something else the second time", i); }
}
template<typename S> static int sum(const S& xs) { int r = 0, k = 1; for (auto&& x : xs) r += k++ * El<std::remove_cvref_t<decltype(x)>>::read(x); return r; }
template<typename T, typename L> static void sequence(Reads& r, const L& xs)
{
	r.push_back([&] { return (int)xs.Count(); });
	for (int i = 0; i < 3; i++) r.push_back([&, i] { T x = xs[i]; return El<T>::read(x) * 100 + El<T>::read(xs.Get(i)); });
	for (int v : { 1, 2, 9 }) r.push_back([&, v] { return (int)xs.IndexOf(El<T>::make(v)) * 2 + xs.Contains(El<T>::make(v)); });
	r.push_back([&] { return sum(xs); });
	r.push_back([&] { auto e = xs.CreateEnumerator(); e->Next(); auto f = e->Clone(); int n = 0; while (f->Next()) n += 1 + (int)f->Index(); f->Reset(); f->Next(); n = n * 100 + El<T>::read(f->Current()); delete e; delete f; return n; });
	r.push_back([&] { List<T> ys; CopyFrom(ys, xs); return sum(ys); });
	r.push_back([&] { return xs.GetCollectionReference() ? 1 : 0; });
}
template<typename T> static void arrays(Ctx& c) { Array<T> xs(3); for (int i = 0; i < 3; i++) xs[i] = El<T>::make(i + 1); Reads r; sequence<T>(r, xs); readers(c, r, 2, c.bound(2, 4)); }
template<typename T> static void lists(Ctx& c) { List<T> xs; for (int i = 0; i < 5; i++) xs.Add(El<T>::make(i + 1)); Reads r; sequence<T>(r, xs); readers(c, r, 2, c.bound(2, 4)); }
template<typename T> static void sorted(Ctx& c) { SortedList<T> xs; for (int v : { 3, 1, 2, 5, 2 }) xs.Add(El<T>::make(v)); Reads r; sequence<T>(r, xs); readers(c, r, 2, c.bound(2, 4)); }
MC_SCENARIO(array_int, 16, 4) { arrays<int>(c); }
MC_SCENARIO(array_strings, 32, 4) { arrays<WString>(c); }
MC_SCENARIO(list_int, 16, 4) { lists<int>(c); }
MC_SCENARIO(list_strings, 32, 4) { lists<WString>(c); }
MC_SCENARIO(sorted_list_int, 16, 4) { sorted<int>(c); }
MC_SCENARIO(sorted_list_strings, 32, 4) { sorted<WString>(c); }
MC_SCENARIO(list_three_threads, 64, 4) { List<WString> xs; for (int i = 0; i < 3; i++) xs.Add(El<WString>::make(i + 1)); Reads r; sequence<WString>(r, xs); readers(c, r, 1, 2, 3); }

template<typename K, typename V> static void dictionaries(Ctx& c, int length)
{
	Dictionary<K, V> d; for (int v : { 3, 1, 2 }) d.Add(El<K>::make(v), El<V>::make(v * 2)); const auto& xs = d; Reads r;
	r.push_back([&] { return (int)xs.Count(); });
	for (int k : { 1, 2, 3 }) r.push_back([&, k] { return El<V>::read(xs[El<K>::make(k)]) * 100 + El<V>::read(xs.Get(El<K>::make(k))); });
	for (int k : { 2, 9 }) r.push_back([&, k] { return (int)xs.Keys().IndexOf(El<K>::make(k)); });
	r.push_back([&] { return raises([&] { (void)xs[El<K>::make(7)]; }) ? 1 : 0; });
	r.push_back([&] { int n = 0; for (auto [k, v] : xs) n = n * 10 + El<K>::read(k) + El<V>::read(v); return n; });
	r.push_back([&] { return sum(xs.Keys()) * 1000 + sum(xs.Values()); });
	r.push_back([&] { Ptr<IEnumerator<Pair<const K&, const V&>>> e(xs.CreateEnumerator()); e->Next(); e->Next(); Ptr<IEnumerator<Pair<const K&, const V&>>> f(e->Clone()); int n = (int)e->Index() + (e->Evaluated() ? 10 : 0); while (f->Next()) n = n * 7 % 100003 + (int)f->Index() + El<K>::read(f->Current().key); f->Reset(); f->Next(); return n * 10 + El<V>::read(f->Current().value) + (int)f->Index() + (xs.GetCollectionReference() ? 1 : 0); });
	r.push_back([&] { Dictionary<K, V> y; CopyFrom(y, xs); return (int)y.Count(); });
	readers(c, r, length, c.bound(2, 4));
}
MC_SCENARIO(dictionary_int, 32, 4) { dictionaries<int, int>(c, 2); }
MC_SCENARIO(dictionary_strings, 32, 4) { dictionaries<WString, WString>(c, c.bound(1, 2)); }
template<typename K, typename V> static void groups(Ctx& c, int length)
{
	Group<K, V> d; for (int v : { 3, 1, 2, 1, 3, 1 }) d.Add(El<K>::make(v), El<V>::make(v * 2)); const auto& xs = d; Reads r;
	r.push_back([&] { return (int)xs.Count(); });
	for (int k : { 1, 3 }) r.push_back([&, k] { return sum(xs[El<K>::make(k)]) * 1000 + sum(xs.Get(El<K>::make(k))); });
	r.push_back([&] { return sum(xs.GetByIndex(1)); });
	r.push_back([&] { return (xs.Contains(El<K>::make(1)) ? 1 : 0) + (xs.Contains(El<K>::make(4)) ? 2 : 0) + (xs.Contains(El<K>::make(1), El<V>::make(2)) ? 4 : 0) + (xs.Contains(El<K>::make(1), El<V>::make(3)) ? 8 : 0); });
	r.push_back([&] { int n = 0; for (auto [k, v] : xs) n = (n * 10 + El<K>::read(k) + El<V>::read(v)) % 100003; return n; });
	r.push_back([&] { return sum(xs.Keys()); });
	r.push_back([&] { Ptr<IEnumerator<Pair<const K&, const V&>>> e(xs.CreateEnumerator()); e->Next(); e->Next(); Ptr<IEnumerator<Pair<const K&, const V&>>> f(e->Clone()); int n = (int)e->Index() + (e->Evaluated() ? 10 : 0); while (f->Next()) n = n * 7 % 100003 + (int)f->Index() + El<K>::read(f->Current().key); f->Reset(); f->Next(); return n * 10 + El<V>::read(f->Current().value) + (int)f->Index() + (xs.GetCollectionReference() ? 1 : 0); });
	r.push_back([&] { int n = 0; GroupInnerJoin(xs, xs, [&](const K&, const List<V>&) { n += 5; }, [&](const K&, const List<V>&) { n += 7; }, [&](const K& k, const List<V>& l, const List<V>& m) { n = n * 3 + El<K>::read(k) + (int)l.Count() + (int)m.Count(); }); return n; });
	r.push_back([&] { Group<K, V> y; CopyFrom(y, xs); return (int)y.Count(); });
	readers(c, r, length, c.bound(2, 4));
}
MC_SCENARIO(group_int, 32, 4) { groups<int, int>(c, 2); }
MC_SCENARIO(group_strings, 32, 4) { groups<WString, WString>(c, c.bound(1, 2)); }

// one lazy sequence, or copies of it, read by all threads
MC_SCENARIO(pipelines, 64, 4)
{
	List<int> src; for (int v : { 4, 1, 3, 1, 2 }) src.Add(v); List<int> other; for (int v : { 3, 9, 1 }) other.Add(v);
	LazyList<int> a(src); LazyList<int> p; int which = c.choose(15); c.log("pipeline %d", which);
	switch (which)
	{
	case 0: p = a.Select([](int x) { return x * 2; }); break;
	case 1: p = a.Where([](int x) { return x % 2 == 1; }); break;
	case 2: p = a.Concat(other); break;
	case 3: p = a.Take(3); break;
	case 4: p = a.Skip(2); break;
	case 5: p = a.Repeat(2); break;
	case 6: p = a.Distinct(); break;
	case 7: p = a.Reverse(); break;
	case 8: p = a.Intersect(other); break;
	case 9: p = a.Except(other); break;
	case 10: p = a.Union(other); break;
	case 11: p = a.Evaluate(); break;
	case 12: p = a.OrderBySelf(); break;
	case 13: p = a.SelectMany([](int x) { return Range<vint>(0, x).Select([](vint y) { return (int)y; }); }); break;
	case 14: p = a.GroupBy([](int x) { return x % 2; }).Select([](Pair<int, LazyList<int>> g) { return g.key * 100 + (int)g.value.Count(); }); break;
	}
	const LazyList<int>& xs = p; Reads r;
	r.push_back([&] { return sum(xs); });
	r.push_back([&] { return (int)xs.Count(); });
	r.push_back([&] { return xs.First(); });
	r.push_back([&] { LazyList<int> y(xs); return sum(y); });
	r.push_back([&] { return sum(xs.Where([](int x) { return x > 1; })); });
	r.push_back([&] { return xs.Aggregate(0, [](int s, int x) { return s * 3 + x; }); });
	r.push_back([&] { List<int> y; CopyFrom(y, xs); return sum(y); });
	readers(c, r, c.bound(1, 2), c.bound(2, 2));
}
MC_SCENARIO(text, 64, 4)
{
	bool part = c.flip(); WString s = part ? WString(L"xabcabcx").Sub(1, 6) : WString(L"abcabc"); const WString& t = s; c.log("%s", part ? "a part of another string" : "a whole string"); Reads r;
	r.push_back([&] { return (int)t.Length(); });
	r.push_back([&] { return (int)t[2]; });
	r.push_back([&] { WString l = t.Left(2), q = t.Sub(2, 3), e = t.Right(1); return (l == L"ab") + 2 * (q == L"cab") + 4 * (e == L"c"); });
	r.push_back([&] { return (int)t.IndexOf(L'b'); });
	r.push_back([&] { return (t == L"abcabc") + 2 * (t < WString(L"abd")) + 4 * (t == t); });
	r.push_back([&] { WString x = t + t; return (int)x.Length() + x[7]; });
	r.push_back([&] { WString x = t.Insert(2, L"!"), y = t.Remove(1, 2); return x[2] + (int)y.Length(); });
	r.push_back([&] { WString x(t); return (int)x.Length(); });
	if (!part) r.push_back([&] { return (int)t.Buffer()[5]; });
	if (!part) r.push_back([&] { return (int)wtou8(t).Length() + (int)wtou16(t).Length(); });
	readers(c, r, c.bound(2, 2), c.bound(2, 4));
}
// a part of a string that is asked for a zero terminated buffer stores the copy it makes (see KNOWN_FINDINGS.txt)
MC_SCENARIO(part_buffer, 16, 2)
{
	WString s = WString(L"xabcabcx").Sub(1, 6); const WString& t = s; Reads r; sched::known("part-buffer");
	r.push_back([&] { return (int)t.Buffer()[5] * 100 + (int)t.Length(); });
	r.push_back([&] { return (int)wtou8(t).Length() + (int)wtou16(t).Length(); });
	r.push_back([&] { WString x(t); return (int)x.Length(); });
	r.push_back([&] { return (int)t[2]; });
	readers(c, r, 1, c.bound(2, 4));
}
MC_SCENARIO(values, 32, 4)
{
	typedef Variant<int, WString> V; Nullable<WString> n(WString(L"text")), none; V v(WString(L"other")); Tuple<int, WString> tu(4, WString(L"tuple")); Pair<int, WString> pa(3, WString(L"pair")); Ptr<WString> ptr(new WString(L"pointee")); const auto& cn = n; const auto& cv = v; const auto& ct = tu; const auto& cp = pa; Reads r;
	r.push_back([&] { return (int)cn.Value().Length() + (none ? 1 : 0); });
	r.push_back([&] { Nullable<WString> x(cn); return (x == cn) ? 3 : 4; });
	r.push_back([&] { return (int)cv.Get<WString>().Length() + 10 * (int)cv.Index(); });
	r.push_back([&] { V x(cv); int n = 0; cv.Apply(Overloading([&](const int&) { n = 1; }, [&](const WString& s) { n = (int)s.Length(); })); return n; });
	r.push_back([&] { Tuple<int, WString> x(ct); return (x == ct) ? (int)ct.get<1>().Length() : 0; });
	r.push_back([&] { Pair<int, WString> x(cp); return (x == cp) ? (int)cp.value.Length() : 0; });
	r.push_back([&] { Ptr<WString> x(ptr); return (int)x->Length(); });
	r.push_back([&] { WString x = *ptr.Obj(); return (int)x.Length(); });
	readers(c, r, c.bound(2, 2), c.bound(3, 4));
}
MC_SCENARIO(callables, 32, 4)
{
	WString captured(L"captured"); Func<int(int)> f([captured](int x) { return x + (int)captured.Length(); }); Event<void(int, std::atomic<int>&)> ev; auto h1 = ev.Add(Func<void(int, std::atomic<int>&)>([captured](int x, std::atomic<int>& r) { r += x + (int)captured.Length(); })); auto h2 = ev.Add(Func<void(int, std::atomic<int>&)>([](int x, std::atomic<int>& r) { r += x * 100; })); const auto& cf = f; const auto& ce = ev; Reads r;
	r.push_back([&] { return cf(3); });
	r.push_back([&] { Func<int(int)> g(cf); return g(4) + (g == cf ? 100 : 0); });
	r.push_back([&] { std::atomic<int> n = 0; ce(2, n); return n.load(); });
	r.push_back([&] { return (h1->IsAttached() ? 1 : 0) + (h2->IsAttached() ? 2 : 0); });
	r.push_back([&] { return cf ? 1 : 0; });
	readers(c, r, c.bound(2, 3), c.bound(2, 3));
}
MC_SCENARIO(byte_map, 32, 4)
{
	typedef ByteObjectMap<int> M; M::Allocator al(4); M m; static int v[3] = { 1, 2, 3 }; m.Set(0, &v[0], al); m.Set(77, &v[1], al); m.Set(255, &v[2], al); Reads r;
	for (int k : { 0, 5, 77, 78, 255 }) r.push_back([&, k] { auto p = m.Get((vuint8_t)k); return p ? *p : -1; });
	readers(c, r, 3, c.bound(2, 4));
}

// every function that reads strings and numbers: none keeps its result or its working space in shared memory
static int textValue(const wchar_t* s) { int r = 7; while (*s) r = r * 31 % 100003 + (int)*s++; return r; }
template<typename S> static int textOf(const S& s) { int r = (int)s.Length(); for (vint i = 0; i < s.Length(); i++) r = r * 31 % 100003 + (int)(uint32_t)s[i]; return r; }
MC_SCENARIO(text_functions, 64, 2)
{
	WString w(L"aB\x4E2D\U00010400z"), n(L"-12345"), u(L"987"), f(L"3.25"); AString a("aBz"), na("-12345"), ua("987"), fa("3.25"); U8String u8 = wtou8(w); U16String u16 = wtou16(w); U32String u32 = wtou32(w); Reads r; bool ok;
	#define R(EXPR) r.push_back([&] { return (int)(EXPR); })
	R(textOf(wtou8(w))); R(textOf(wtou16(w))); R(textOf(wtou32(w))); R(textOf(u8tow(u8))); R(textOf(u8tou16(u8))); R(textOf(u8tou32(u8))); R(textOf(u16tow(u16))); R(textOf(u16tou8(u16))); R(textOf(u16tou32(u16))); R(textOf(u32tow(u32))); R(textOf(u32tou8(u32))); R(textOf(u32tou16(u32)));
	R(textOf(wtoa(n))); R(textOf(atow(a))); R(wtoi(n)); R(atoi(na)); R(wtoi64(n)); R(atoi64(na)); R(wtou(u)); R(atou(ua)); R(wtou64(u)); R(atou64(ua)); R(wtof(f) * 100); R(atof(fa) * 100);
	r.push_back([&] { bool s1, s2, s3, s4, s5; return (int)wtoi_test(n, s1) + (int)wtou_test(u, s2) + (int)wtof_test(f, s3) + (int)wtoi64_test(w, s4) + (int)wtou64_test(n, s5) + s1 + 2 * s2 + 4 * s3 + 8 * s4 + 16 * s5; });
	r.push_back([&] { bool s1, s2, s3, s4, s5; return (int)atoi_test(na, s1) + (int)atou_test(ua, s2) + (int)atof_test(fa, s3) + (int)atoi64_test(a, s4) + (int)atou64_test(na, s5) + s1 + 2 * s2 + 4 * s3 + 8 * s4 + 16 * s5; });
	R(textOf(itow(-77))); R(textOf(itoa(-78))); R(textOf(i64tow(123456789012))); R(textOf(i64toa(-123456789012))); R(textOf(utow(55))); R(textOf(utoa(56))); R(textOf(u64tow(57))); R(textOf(u64toa(58))); R(textOf(ftow(1.5))); R(textOf(ftoa(-2.25)));
	R(textOf(wlower(w))); R(textOf(wupper(w))); R(textOf(alower(a))); R(textOf(aupper(a))); (void)ok; (void)&textValue;
	readers(c, r, 1, c.bound(1, 2));
}
template<typename S, typename C> static void stringMembers(Ctx& c)
{
	auto mk = [](const char* t) { std::basic_string<C> b; while (*t) b.push_back((C)*t++); return S::CopyFrom(b.c_str(), (vint)b.size()); };
	S whole = mk("abcabc"), other = mk("abd"); bool part = c.flip(); S s = part ? mk("xabcabcx").Sub(1, 6) : whole; const S& t = s; const C lit[] = { 'c', 'a', 0 }; Reads r; c.log("%s", part ? "a part of another string" : "a whole string");
	R(textOf(t.Left(2)) + textOf(t.Right(2)) + textOf(t.Sub(1, 3))); R(textOf(t.Remove(1, 2)) + textOf(t.Remove(0, 6))); R(textOf(t.Insert(2, other)) + textOf(t.Insert(0, lit))); R(textOf(t + other) + textOf(other + t)); R(textOf(t + lit) + textOf(lit + t)); R((t == whole) + 2 * (t < other) + 4 * (t == lit) + 8 * (lit < t) + 16 * (t != other)); R(t.IndexOf((C)'c') * 10 + t[1]);
	r.push_back([&] { S x(t); x += other; S y; y = t; y = std::move(x); return textOf(y); }); r.push_back([&] { return raises([&] { (void)t[6]; }) + 2 * raises([&] { t.Sub(3, 4); }); }); r.push_back([&] { return textOf(S::Empty + t) + textOf(S(t.Left(0))); }); if (!part) r.push_back([&] { return (int)t.Buffer()[3]; });
	readers(c, r, 1, c.bound(2, 3));
}
MC_SCENARIO(string_members_w, 32, 3) { stringMembers<WString, wchar_t>(c); }
MC_SCENARIO(string_members_a, 32, 3) { stringMembers<AString, char>(c); }
MC_SCENARIO(string_members_u8, 32, 3) { stringMembers<U8String, char8_t>(c); }
MC_SCENARIO(string_members_u16, 32, 3) { stringMembers<U16String, char16_t>(c); }
MC_SCENARIO(string_members_u32, 32, 3) { stringMembers<U32String, char32_t>(c); }
// every member of lazy sequences that reads
struct ReadBase { int id; ReadBase(int i) :id(i) {} virtual ~ReadBase() {} }; struct ReadDerived : ReadBase { using ReadBase::ReadBase; };
MC_SCENARIO(pipeline_members, 64, 3)
{
	List<int> src; for (int v : { 4, 1, 3, 1, 2 }) src.Add(v); List<int> other; for (int v : { 3, 9, 1 }) other.Add(v); LazyList<int> p = c.flip() ? LazyList<int>(src) : From(src).Select([](int x) { return x; }); const LazyList<int>& xs = p; LazyList<int> none; Reads r;
	List<Ptr<ReadBase>> objects; objects.Add(Ptr<ReadBase>(new ReadBase(1))); objects.Add(Ptr<ReadBase>(new ReadDerived(2))); const LazyList<Ptr<ReadBase>> os = objects;
	R(sum(xs.OrderBy([](int a, int b) { return a <=> b; }))); R(sum(xs.OrderByKey([](int a) { return -a; }))); R(xs.Aggregate([](int a, int b) { return a * 2 + b; })); R(xs.All([](int x) { return x > 1; }) + 2 * xs.Any([](int x) { return x > 3; })); R(xs.Max() * 10 + xs.Min()); R(xs.First(8) * 10 + xs.Last(9)); R(xs.Last() + none.First(5) + none.Last(6)); R(xs.IsEmpty() + 2 * none.IsEmpty());
	R(sum(xs.Concat(other))); R(sum(xs.Take(2)) * 100 + sum(xs.Skip(2))); R(sum(xs.Repeat(2))); R(sum(xs.Distinct())); R(sum(xs.Reverse())); R(sum(xs.Intersect(other)) * 100 + sum(xs.Except(other))); R(sum(xs.Union(other))); R(sum(xs.Evaluate(true)));
	r.push_back([&] { int n = 0; for (auto q : xs.Pairwise(other)) n = n * 7 + q.key * 3 + q.value; return n; }); r.push_back([&] { int n = 0; for (auto q : xs.GroupBy([](int x) { return x % 2; })) n = n * 7 + q.key * 3 + (int)q.value.Count(); return n; }); r.push_back([&] { return (int)os.Cast<ReadDerived>().Count() * 10 + (int)os.FindType<ReadDerived>().Count(); }); R(sum(xs.SelectMany([&](int x) { return From(other).Take(x); })));
	readers(c, r, 1, c.bound(1, 2));
}
// one enumerator that nobody moves: its position and element are read and it is cloned by all threads
MC_SCENARIO(enumerators, 64, 4)
{
	List<int> src; for (int v : { 4, 1, 3, 1, 2 }) src.Add(v); List<int> other; for (int v : { 3, 9, 1 }) other.Add(v); LazyList<int> a(src), p; int which = c.choose(12), moved = c.choose(4); c.log("pipeline %d after %d steps", which, moved);
	switch (which) { case 0: p = a.Select([](int x) { return x * 2; }); break; case 1: p = a.Where([](int x) { return x % 2 == 1; }); break; case 2: p = a.Concat(other); break; case 3: p = a.Take(3); break; case 4: p = a.Skip(2); break; case 5: p = a.Repeat(2); break; case 6: p = a.Distinct(); break; case 7: p = a.Reverse(); break; case 8: p = a.Intersect(other); break; case 9: p = a.Except(other); break; case 10: p = a; break; case 11: p = a.Select([](int x) { return x; }).Evaluate(); break; }
	Ptr<IEnumerator<int>> e(p.CreateEnumerator()); bool at = false; for (int i = 0; i < moved; i++) at = e->Next(); const IEnumerator<int>& ce = *e.Obj(); Reads r;
	R(ce.Index()); R(ce.Evaluated()); if (at) R(ce.Current()); r.push_back([&] { Ptr<IEnumerator<int>> f(ce.Clone()); int n = (int)f->Index(); while (f->Next()) n = n * 7 + f->Current(); f->Reset(); if (f->Next()) n = n * 7 + f->Current(); return n; }); r.push_back([&] { return sum(p); });
	readers(c, r, c.bound(1, 2), 2);
}
// the remaining members of values and handles
struct ReadCom { int refs = 0; std::atomic<int> n{ 0 }; int AddRef() { return ++n; } int Release() { return --n; } int value() { return 5; } };
MC_SCENARIO(value_members, 32, 3)
{
	typedef Variant<int, WString, double> V; Nullable<WString> n(WString(L"text")), none; V v(WString(L"other")), v2(3); Tuple<int, WString> t1(4, WString(L"a")), t2(4, WString(L"b")); Pair<int, WString> p1(3, WString(L"a")), p2(3, WString(L"b")); const auto& cv = v; ReadCom com; ComPtr<ReadCom> cp(&com); com.AddRef();
	Ptr<ReadBase> pb(new ReadDerived(3)), pn; Reads r; DateTime d1 = DateTime::FromDateTime(2020, 2, 3), d2 = DateTime::FromDateTime(2021, 2, 3);
	R((n == none) + 2 * (n > none) + 4 * (none < n) + 8 * (bool)n); R((cv.TryGet<WString>() ? 1 : 0) + (cv.TryGet<int>() ? 2 : 0) + 4 * raises([&] { (void)cv.Get<int>(); })); r.push_back([&] { int x = 0; bool y = cv.TryApply(Overloading([&](const WString& s) { x = (int)s.Length(); })); bool z = v2.TryApply(Overloading([&](const WString&) { x = 99; })); return x * 10 + y * 2 + z; });
	R((t1 < t2) + 2 * (t1 == t2) + 4 * (t1 <= t1)); R((p1 < p2) + 2 * (p1 == p2) + 4 * (p1 <= p1)); R((pb == pn) + 2 * (pb ? 1 : 0) + 4 * (pb == pb.Obj()) + 8 * (pn < pb)); r.push_back([&] { auto q = pb.Cast<ReadDerived>(); Ptr<ReadBase> x = q; return (q ? q->id : 0) + (x == pb); }); r.push_back([&] { ComPtr<ReadCom> q(cp); return q->value() + (q == cp) + (cp ? 2 : 0); }); R((d1 < d2) + 2 * (d1 == d2) + 4 * (d1 > d2));
	readers(c, r, 1, c.bound(2, 4));
}
// functions that take collections and keep nothing of them
MC_SCENARIO(collection_functions, 64, 3)
{
	List<int> xs, ys; for (int v : { 4, 1, 3 }) xs.Add(v); for (int v : { 4, 1, 5 }) ys.Add(v); Array<int> arr(2); arr[0] = 4; arr[1] = 1; SortedList<int> so; for (int v : { 3, 1 }) so.Add(v); LazyList<int> lz = From(xs).Where([](int x) { return x > 1; }); WString text(L"text"); Reads r;
	R(1 + (CompareEnumerable(xs, ys) < 0 ? 1 : 0) + (CompareEnumerable(xs, arr) > 0 ? 2 : 0)); R(CompareEnumerable(lz, xs) == 0 ? 1 : 2); R(CompareEnumerable(so, so) == 0 ? 1 : 2);
	r.push_back([&] { int n = 0; for (auto [x, i] : indexed(xs)) n = n * 7 + x * 3 + (int)i; return n; }); r.push_back([&] { int n = 0; for (auto [x, i] : indexed(lz)) n = n * 7 + x * 3 + (int)i; return n; }); r.push_back([&] { int n = 0; for (int x : so) n = n * 7 + x; return n; });
	r.push_back([&] { Array<int> y; CopyFrom(y, xs); CopyFrom(y, lz, true); return sum(y); }); r.push_back([&] { SortedList<int> y; CopyFrom(y, ys); CopyFrom(y, arr, true); return sum(y); }); r.push_back([&] { List<wchar_t> y; CopyFrom(y, text); WString z; CopyFrom(z, y); return textOf(z); }); r.push_back([&] { SortedList<int> y(so); return sum(y); });
	r.push_back([&] { int y[4] = { 3, 1, 2, 0 }; Sort(y, 4); return y[0] * 1000 + y[1] * 100 + y[2] * 10 + y[3]; }); r.push_back([&] { int n = 0; for (int x : From(xs).OrderBySelf()) n = n * 7 + x; return n; }); r.push_back([&] { return (int)Range<vint>(1, 3).Count(); });
	readers(c, r, 1, c.bound(2, 3));
}
