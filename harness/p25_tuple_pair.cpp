// P25: pairs and tuples compare element by element from the left and hand over exactly the elements they were given.
#include "coll.h"
#include <cmath>
#include <array>
typedef std::partial_ordering PO;
template<typename O> PO po(O o) { return o; }
template<typename X, typename Y> void agree(const X& a, const Y& b, PO e, const char* what)
{
	MC_CHECK(po(a <=> b) == e, "%s: the comparison differs", what); MC_CHECK(po(b <=> a) == (e < 0 ? PO::greater : e > 0 ? PO::less : e), "%s: the reverse comparison differs", what);
	MC_CHECK((a == b) == (e == 0) && (b == a) == (e == 0) && (a != b) == (e != 0), "%s: equality differs", what);
	MC_CHECK((a < b) == (e < 0) && (a > b) == (e > 0) && (a <= b) == (e <= 0) && (a >= b) == (e >= 0), "%s: relational operators differ", what);
}
template<size_t N> std::array<int, N> values(Ctx& c, int k) { std::array<int, N> r; for (auto& x : r) x = c.choose(k); return r; }
template<size_t N> PO lex(const std::array<int, N>& a, const std::array<int, N>& b) { for (size_t i = 0; i < N; i++) if (a[i] != b[i]) return a[i] < b[i] ? PO::less : PO::greater; return PO::equivalent; }
template<typename T> T mk(int v) { return El<T>::make(v); }
template<> double mk<double>(int v) { static const double d[] = { -1.5, 0, 2.5, NAN }; return d[v]; }
template<> char mk<char>(int v) { return (char)v; }
template<> vint mk<vint>(int v) { return v; }
template<> unsigned mk<unsigned>(int v) { return (unsigned)v; }
template<> float mk<float>(int v) { return (float)mk<double>(v); }
template<> Nullable<int> mk<Nullable<int>>(int v) { return v ? Nullable<int>(v) : Nullable<int>(); }
template<> Pair<int, int> mk<Pair<int, int>>(int v) { return Pair<int, int>(v / 2, v % 2); }
template<typename T> PO elementOrder(const T& a, const T& b) { return a <=> b; }
// the order of a sequence of elements: the first pair of elements that is not equivalent decides
template<typename ...Ts, size_t N> PO lexOf(const std::array<int, N>& a, const std::array<int, N>& b) { PO r = PO::equivalent; size_t i = 0; (void)std::initializer_list<int>{ (r == 0 ? (r = elementOrder(mk<Ts>(a[i]), mk<Ts>(b[i]))) : r, i++, 0)... }; return r; }
template<typename ...Ts> void tuples(Ctx& c, int k)
{
	constexpr size_t N = sizeof...(Ts); auto a = values<N>(c, k), b = values<N>(c, k); size_t i = 0, j = 0;
	Tuple<Ts...> x{ mk<Ts>(a[i++])... }, y{ mk<Ts>(b[j++])... }; agree(x, y, lexOf<Ts...>(a, b), "tuple"); agree(x, x, lexOf<Ts...>(a, a), "tuple with itself"); c.step(); c.state(mc::hashSeq(a, mc::hashSeq(b)));
}
MC_SCENARIO(pairs, 16, 3) { auto a = values<2>(c, 4), b = values<2>(c, 4); Pair<int, WString> x(a[0], El<WString>::make(a[1])), y(b[0], El<WString>::make(b[1])); agree(x, y, lex(a, b), "pair"); Pair<vint, WString> z(b[0], El<WString>::make(b[1])); agree(x, z, lex(a, b), "pair of other types"); c.step(); c.state(mc::hashSeq(a, mc::hashSeq(b))); }
MC_SCENARIO(pairs_of_numbers, 16, 3) { auto a = values<2>(c, 4), b = values<2>(c, 4); Pair<double, double> x(mk<double>(a[0]), mk<double>(a[1])), y(mk<double>(b[0]), mk<double>(b[1])); agree(x, y, lexOf<double, double>(a, b), "pair of numbers"); agree(x, x, lexOf<double, double>(a, a), "pair of numbers with itself"); Pair<int, double> u(a[0], mk<double>(a[1])), v(b[0], mk<double>(b[1])); agree(u, v, lexOf<int, double>(a, b), "pair of an integer and a number"); Pair<double, int> s(mk<double>(a[0]), a[1]), t(mk<double>(b[0]), b[1]); agree(s, t, lexOf<double, int>(a, b), "pair of a number and an integer"); c.step(); c.state(mc::hashSeq(a, mc::hashSeq(b))); }
MC_SCENARIO(nested_pairs, 16, 3) { auto a = values<3>(c, 3), b = values<3>(c, 3); typedef Pair<Pair<int, Tracked>, int> P; P x(Pair<int, Tracked>(a[0], Tracked(a[1])), a[2]), y(Pair<int, Tracked>(b[0], Tracked(b[1])), b[2]); agree(x, y, lex(a, b), "nested pair"); c.step(); c.state(mc::hashSeq(a, mc::hashSeq(b))); }
MC_SCENARIO(tuple2, 16, 3) { tuples<int, WString>(c, 4); }
MC_SCENARIO(tuple2_numbers, 16, 3) { tuples<double, double>(c, 4); }
MC_SCENARIO(tuple3, 32, 4) { tuples<int, WString, Tracked>(c, 3); }
MC_SCENARIO(tuple3_numbers, 32, 4) { tuples<double, int, float>(c, 4); }
MC_SCENARIO(tuple4, 64, 4) { tuples<char, Nullable<int>, double, Pair<int, int>>(c, c.bound(3, 4)); }
MC_SCENARIO(tuple5, 64, 5) { tuples<int, int, char, vint, unsigned>(c, c.bound(3, 4)); }
MC_SCENARIO(nested_tuples, 32, 4) { auto a = values<4>(c, 3), b = values<4>(c, 3); typedef Tuple<int, Tuple<int, WString>, int> T; T x(a[0], Tuple<int, WString>(a[1], El<WString>::make(a[2])), a[3]), y(b[0], Tuple<int, WString>(b[1], El<WString>::make(b[2])), b[3]); agree(x, y, lex(a, b), "nested tuple"); c.step(); c.state(mc::hashSeq(a, mc::hashSeq(b))); }
MC_SCENARIO(other_types, 32, 4) { auto a = values<3>(c, 3), b = values<3>(c, 3); Tuple<int, double, WString> x(a[0], a[1] * 1.0, El<WString>::make(a[2])); Tuple<vint, int, WString> y(b[0], b[1], El<WString>::make(b[2])); agree(x, y, lex(a, b), "tuples of other types"); c.step(); c.state(mc::hashSeq(a, mc::hashSeq(b))); }
// construction, conversion, assignment and access
template<typename T> void holds(const T& t, const std::array<int, 3>& m, const char* what)
{
	MC_CHECK(t.template get<0>() == m[0] && El<Tracked>::read(t.template get<1>()) == m[1] && El<WString>::read(t.template get<2>()) == m[2], "%s: the elements are %d %d %d, expected %d %d %d", what, (int)t.template get<0>(), t.template get<1>().v, El<WString>::read(t.template get<2>()), m[0], m[1], m[2]);
	auto&& [p, q, r] = t; MC_CHECK(p == m[0] && q.v == m[1] && El<WString>::read(r) == m[2], "%s: structured binding differs", what);
	MC_CHECK(get<0>(t) == m[0] && get<1>(t).v == m[1], "%s: get differs", what);
}
MC_SCENARIO(tuple_histories, 64, 4)
{
	typedef Tuple<int, Tracked, WString> T; typedef Tuple<short, Tracked, WString> U; int depth = c.bound(3, 4); typedef std::array<int, 3> M;
	{
		T* s[2]; M m[2] = { { 1, 2, 3 }, { 4, 5, 6 } }; for (int i = 0; i < 2; i++) s[i] = new T(m[i][0], Tracked(m[i][1]), El<WString>::make(m[i][2])); const int gone = El<WString>::read(WString());
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(2), j = 1 - i;
			switch (c.choose(9))
			{
			case 0: c.log("%d = %d", i, j); *s[i] = (const T&)*s[j]; m[i] = m[j]; break;
			case 1: c.log("%d = move %d", i, j); *s[i] = std::move(*s[j]); m[i] = m[j]; m[j][1] = Tracked::Moved; s[j]->get<2>() = WString(); m[j][2] = gone; break;
			case 2: c.log("%d = new from %d", i, j); delete s[i]; s[i] = new T((const T&)*s[j]); m[i] = m[j]; break;
			case 3: c.log("%d = new from moved %d", i, j); delete s[i]; s[i] = new T(std::move(*s[j])); m[i] = m[j]; m[j][1] = Tracked::Moved; s[j]->get<2>() = WString(); m[j][2] = gone; break;
			case 4: { c.log("%d = tuple of other types", i); const U u((short)7, Tracked(8), El<WString>::make(9)); if (c.flip()) *s[i] = u; else { delete s[i]; s[i] = new T(u); } MC_CHECK(u.get<1>().v == 8 && El<WString>::read(u.get<2>()) == 9, "the source changed"); m[i] = { 7, 8, 9 }; break; }
			case 5: { c.log("%d = moved tuple of other types", i); U u((short)7, Tracked(8), El<WString>::make(9)); if (c.flip()) *s[i] = std::move(u); else { delete s[i]; s[i] = new T(std::move(u)); } m[i] = { 7, 8, 9 }; break; }
			case 6: { int k = c.choose(3); c.log("write element %d of %d", k, i); if (k == 0) s[i]->get<0>() = 11; else if (k == 1) s[i]->get<1>().v = 11; else s[i]->get<2>() = El<WString>::make(11); m[i][k] = 11; break; }
			case 7: { c.log("%d = new from lvalues", i); int a = 1; Tracked b(2); WString d = El<WString>::make(3); delete s[i]; s[i] = new T(a, b, d); MC_CHECK(b.v == 2 && El<WString>::read(d) == 3, "the sources changed"); m[i] = { 1, 2, 3 }; break; }
			case 8: { c.log("write through a binding of %d", i); auto&& [p, q, r] = *s[i]; p = 21; q = Tracked(22); r = El<WString>::make(23); m[i] = { 21, 22, 23 }; break; }
			}
			c.step(); for (int k = 0; k < 2; k++) holds(*s[k], m[k], "after the operation"); MC_CHECK(mc::Registry::live() == 2, "%ld live elements", mc::Registry::live()); c.state(mc::hashSeq(m[0], mc::hashSeq(m[1])));
		}
		delete s[0]; delete s[1];
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked");
}
MC_SCENARIO(pair_histories, 64, 4)
{
	typedef Pair<Tracked, WString> T; typedef Pair<int, WString> U; int depth = c.bound(4, 5); typedef std::array<int, 2> M; const int gone = El<WString>::read(WString());
	{
		T* s[2]; M m[2] = { { 1, 2 }, { 4, 5 } }; for (int i = 0; i < 2; i++) s[i] = new T(Tracked(m[i][0]), El<WString>::make(m[i][1]));
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(2), j = 1 - i;
			switch (c.choose(7))
			{
			case 0: c.log("%d = %d", i, j); *s[i] = (const T&)*s[j]; m[i] = m[j]; break;
			case 1: c.log("%d = move %d", i, j); *s[i] = std::move(*s[j]); m[i] = m[j]; m[j][0] = Tracked::Moved; s[j]->value = WString(); m[j][1] = gone; break;
			case 2: c.log("%d = new from %d", i, j); delete s[i]; s[i] = new T((const T&)*s[j]); m[i] = m[j]; break;
			case 3: c.log("%d = new from moved %d", i, j); delete s[i]; s[i] = new T(std::move(*s[j])); m[i] = m[j]; m[j][0] = Tracked::Moved; s[j]->value = WString(); m[j][1] = gone; break;
			case 4: { c.log("%d = new from a pair of other types", i); U u(7, El<WString>::make(8)); delete s[i]; if (c.flip()) s[i] = new T((const U&)u); else s[i] = new T(std::move(u)); m[i] = { 7, 8 }; break; }
			case 5: { int k = c.choose(2); c.log("write element %d of %d", k, i); if (k == 0) s[i]->get<0>().v = 11; else s[i]->get<1>() = El<WString>::make(11); m[i][k] = 11; break; }
			case 6: { c.log("write through a binding of %d", i); auto&& [p, q] = *s[i]; p = Tracked(22); q = El<WString>::make(23); m[i] = { 22, 23 }; break; }
			}
			c.step(); for (int k = 0; k < 2; k++) { const T& t = *s[k]; MC_CHECK(El<Tracked>::read(t.key) == m[k][0] && El<WString>::read(t.value) == m[k][1], "pair %d is (%d, %d), expected (%d, %d)", k, t.key.v, El<WString>::read(t.value), m[k][0], m[k][1]); auto&& [p, q] = t; MC_CHECK(&p == &t.key && &q == &t.value && &t.get<0>() == &t.key && &t.get<1>() == &t.value, "access paths differ"); }
			MC_CHECK(mc::Registry::live() == 2, "%ld live elements", mc::Registry::live()); c.state(mc::hashSeq(m[0], mc::hashSeq(m[1])));
		}
		delete s[0]; delete s[1];
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked");
}
// elements next to the limits of their types
MC_SCENARIO(extremes, 32, 4)
{
	auto& v = extremesOf<vint>(); auto& u = extremesOf<unsigned>(); auto& i = extremesOf<int>(); int a = c.choose((int)v.size()), b = c.choose((int)v.size()), x = c.choose((int)u.size()), y = c.choose((int)u.size()); PO e = a != b ? po(a <=> b) : po(x <=> y);
	agree(Pair<vint, unsigned>(v[a], u[x]), Pair<vint, unsigned>(v[b], u[y]), e, "pair of extremes"); agree(Tuple<vint, unsigned>(v[a], u[x]), Tuple<vint, unsigned>(v[b], u[y]), e, "tuple of extremes"); int p = std::min<int>(x, (int)i.size() - 1), q = std::min<int>(y, (int)i.size() - 1); agree(Tuple<char, vint, int>('c', v[a], i[p]), Tuple<char, vint, int>('c', v[b], i[q]), a != b ? po(a <=> b) : po(p <=> q), "tuple of three"); c.step(3); c.state(((a * 10 + b) * 10 + x) * 10 + y);
}

// converting a pair or a tuple copies or moves every element
struct Taken { int v; bool moved; Taken() :v(0), moved(false) {} Taken(const Tracked& t) :v(t.v), moved(false) {} Taken(Tracked&& t) :v(t.v), moved(true) { t.v = Tracked::Moved; } };
MC_SCENARIO(conversions_take_every_element, 16, 4)
{
	bool move = c.flip(), assign = c.flip(); int a = c.choose(3), b = c.choose(3), d = c.choose(3); c.log("%s %s (%d, %d, %d)", assign ? "assign" : "construct", move ? "moved" : "copied", a, b, d); c.state(a * 100 + b * 10 + d + move * 1000 + assign * 2000);
	auto taken = [&](const Taken& t, const Tracked& s, int v, const char* what) { MC_CHECK(t.v == v && t.moved == move, "%s: an element is %d and was %s, expected %d", what, t.v, t.moved ? "moved" : "copied", v); MC_CHECK(s.v == (move ? (int)Tracked::Moved : v), "%s: the source of an element became %d", what, s.v); };
	{
		Pair<Tracked, Tracked> p{ Tracked(a), Tracked(b) }; Pair<Taken, Taken> q;
		if (assign) { if (move) q = std::move(p); else q = (const Pair<Tracked, Tracked>&)p; taken(q.key, p.key, a, "pair"); taken(q.value, p.value, b, "pair"); }
		else { Pair<Taken, Taken> r = move ? Pair<Taken, Taken>(std::move(p)) : Pair<Taken, Taken>((const Pair<Tracked, Tracked>&)p); taken(r.key, p.key, a, "pair"); taken(r.value, p.value, b, "pair"); }
		c.step();
	}
	{
		typedef Tuple<Tracked, Tracked, Tracked> S; typedef Tuple<Taken, Taken, Taken> T; S p{ Tracked(a), Tracked(b), Tracked(d) }; T q;
		if (assign) { if (move) q = std::move(p); else q = (const S&)p; } 
		const T r = assign ? std::move(q) : move ? T(std::move(p)) : T((const S&)p);
		taken(r.get<0>(), p.get<0>(), a, "tuple"); taken(r.get<1>(), p.get<1>(), b, "tuple"); taken(r.get<2>(), p.get<2>(), d, "tuple"); c.step();
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked");
}
// elements that are references: they name the same object wherever the tuple goes, and only an explicit write changes that object
MC_SCENARIO(references, 32, 4)
{
	typedef Tuple<int&, Tracked&, const WString&> R; typedef Tuple<int, Tracked, WString> T; typedef Tuple<const int&, const Tracked&, const WString&> CR; typedef Pair<Tracked&, WString&> PR; typedef Pair<Tracked, WString> PT; int depth = c.bound(3, 4);
	{
		struct Obj { int a; Tracked b; WString d; }; Obj o[3] = { { 1, Tracked(2), El<WString>::make(3) }, { 1, Tracked(5), El<WString>::make(6) }, { 1, Tracked(2), El<WString>::make(9) } }; int m[3][3] = { { 1, 2, 3 }, { 1, 5, 6 }, { 1, 2, 9 } };
		R* s[2] = { new R(o[0].a, o[0].b, o[0].d), new R(o[1].a, o[1].b, o[1].d) }; int at[2] = { 0, 1 }; struct Cleanup { R** s; ~Cleanup() { delete s[0]; delete s[1]; } } cleanup{ s };
		auto same = [&](const T& t, int k, const char* what) { MC_CHECK(t.get<0>() == m[k][0] && El<Tracked>::read(t.get<1>()) == m[k][1] && El<WString>::read(t.get<2>()) == m[k][2], "%s: the elements are %d %d %d, expected %d %d %d", what, t.get<0>(), t.get<1>().v, El<WString>::read(t.get<2>()), m[k][0], m[k][1], m[k][2]); };
		static const int nines[] = { 7, 8, 9 }; auto same2 = [&](const T& t, const int* v) { MC_CHECK(t.get<0>() == v[0] && El<Tracked>::read(t.get<1>()) == v[1] && El<WString>::read(t.get<2>()) == v[2], "binding references to values changed the values"); };
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(2), j = 1 - i, k = at[i];
			switch (c.choose(11))
			{
			case 0: c.log("r%d = r%d", i, j); *s[i] = (const R&)*s[j]; at[i] = at[j]; break;
			case 1: c.log("r%d = move r%d", i, j); *s[i] = std::move(*s[j]); at[i] = at[j]; break;
			case 2: { bool mv = c.flip(); c.log("r%d = new from r%d (%s)", i, j, mv ? "move" : "copy"); R* p = mv ? new R(std::move(*s[j])) : new R((const R&)*s[j]); delete s[i]; s[i] = p; at[i] = at[j]; break; }
			case 3: c.log("r%d = new to object 2", i); delete s[i]; s[i] = new R(o[2].a, o[2].b, o[2].d); at[i] = 2; break;
			case 4: c.log("values copied from r%d", i); { T t((const R&)*s[i]); same(t, k, "constructed"); T u(0, Tracked(0), WString()); u = (const R&)*s[i]; same(u, k, "assigned"); } break;
			case 5: c.log("values from moved r%d", i); { T t(std::move(*s[i])); same(t, k, "constructed"); T u(0, Tracked(0), WString()); u = std::move(*s[i]); same(u, k, "assigned"); } break;
			case 6: c.log("write through r%d", i); s[i]->get<0>() = 20 + step; get<1>(*s[i]).v = 30 + step; m[k][0] = 20 + step; m[k][1] = 30 + step; break;
			case 7: { c.log("write through a binding of r%d", i); auto&& [p, q, r] = *s[i]; p = 40 + step; q = Tracked(50 + step); m[k][0] = 40 + step; m[k][1] = 50 + step; break; }
			case 8: { c.log("a tuple of constant references from r%d", i); bool mv = c.flip(); CR t = mv ? CR(std::move(*s[i])) : CR((const R&)*s[i]); MC_CHECK(&t.get<0>() == &o[k].a && &t.get<1>() == &o[k].b && &t.get<2>() == &o[k].d, "a constant reference names another object"); break; }
			case 9: { c.log("pairs over object %d", k); PR p(o[k].b, o[k].d); MC_CHECK(&p.key == &o[k].b && &p.get<1>() == &o[k].d, "a pair of references names other objects"); PR q((const PR&)p), r(std::move(p)); MC_CHECK(&q.key == &o[k].b && &r.value == &o[k].d, "a copied pair of references names other objects"); PT t((const PR&)p), u(std::move(p)), v(Tracked(0), WString()); v = std::move(q); for (const PT* x : { &t, &u, &v }) MC_CHECK(El<Tracked>::read(x->key) == m[k][1] && El<WString>::read(x->value) == m[k][2], "a pair of values from references is (%d, %d)", x->key.v, El<WString>::read(x->value)); Pair<const Tracked&, const WString&> w(std::move(r)); MC_CHECK(&w.key == &o[k].b && &w.value == &o[k].d, "a pair of constant references names other objects"); p.key.v = 60 + step; m[k][1] = 60 + step; break; }
			case 10: { c.log("r%d bound to values", i); bool eq = c.flip(), mv = c.flip(); T t(eq ? m[k][0] : 7, Tracked(eq ? m[k][1] : 8), El<WString>::make(eq ? m[k][2] : 9)); CR x(o[k].a, o[k].b, o[k].d); if (mv) x = std::move(t); else x = (const T&)t; same2(t, eq ? m[k] : nines); MC_CHECK(&x.get<0>() == &t.get<0>() && &x.get<1>() == &t.get<1>() && &x.get<2>() == &t.get<2>(), "an assigned reference names another object"); break; }
			}
			c.step();
			for (int x = 0; x < 3; x++) MC_CHECK(o[x].a == m[x][0] && El<Tracked>::read(o[x].b) == m[x][1] && El<WString>::read(o[x].d) == m[x][2], "object %d is %d %d %d, expected %d %d %d", x, o[x].a, o[x].b.v, El<WString>::read(o[x].d), m[x][0], m[x][1], m[x][2]);
			for (int x = 0; x < 2; x++) { const R& r = *s[x]; Obj& b = o[at[x]]; MC_CHECK(&r.get<0>() == &b.a && &r.get<1>() == &b.b && &r.get<2>() == &b.d && &s[x]->get<0>() == &b.a && &get<1>(*s[x]) == &b.b, "r%d names another object", x); auto&& [p, q, w] = *s[x]; MC_CHECK(&p == &b.a && &q == &b.b && &w == &b.d, "a binding of r%d names another object", x); }
			auto lexed = [&](int x, int y) { for (int z = 0; z < 3; z++) if (m[x][z] != m[y][z]) return po(m[x][z] <=> m[y][z]); return PO::equivalent; };
			CR r0((const R&)*s[0]), r1((const R&)*s[1]); agree(r0, r1, lexed(at[0], at[1]), "tuples of references"); for (int y = 0; y < 3; y++) agree(r0, T(m[y][0], Tracked(m[y][1]), El<WString>::make(m[y][2])), lexed(at[0], y), "references and values");
			MC_CHECK(mc::Registry::live() == 3, "%ld live elements", mc::Registry::live()); c.state(mc::hashBytes(m, sizeof m, at[0] * 3 + at[1]));
		}
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked");
}
