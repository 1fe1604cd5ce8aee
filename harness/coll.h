#pragma once
#include <mc.h>
#include <Primitives/Nullable.h>
#include <Primitives/Tuple.h>
#include <Collections/Operation.h>
#include <Collections/OperationString.h>
#include <Collections/Dictionary.h>
#include <vector>
#include <map>
#include <algorithm>
#include <limits>
using namespace vl;
using namespace vl::collections;
using mc::Ctx;
using mc::Tracked;
typedef std::vector<int> Seq; // reference sequence
using mc::bigSize;

template<typename F> bool raises(F&& f)
{
	try { f(); }
	catch (const vl::Error&) { return true; }
	return false;
}
inline std::string show(const Seq& s) { std::string r = "["; for (size_t i = 0; i < s.size(); i++) { if (i == 60) { r += ",... " + std::to_string(s.size()) + " in all"; break; } r += (i ? "," : "") + std::to_string(s[i]); } return r + "]"; }

// element types: how a reference value is written as an element and read back
template<typename T> struct El;
template<> struct El<int> { static int make(int v) { return v; } static int read(const int& x) { return x; } static const bool tracked = false; };
template<> struct El<Tracked> { static Tracked make(int v) { return Tracked(v); } static int read(const Tracked& x) { mc::Registry::use(&x, "reading"); return x.v; } static const bool tracked = true; };
template<> struct El<WString>
{
	static WString make(int v) { wchar_t b[3] = { (wchar_t)(L'a' + v / 26), (wchar_t)(L'a' + v % 26), 0 }; return WString(b); }
	static int read(const WString& s) { return s.Length() == 2 ? (s[0] - L'a') * 26 + (s[1] - L'a') : -1; }
	static const bool tracked = false;
};

// all elements of a container are destroyed as soon as they leave it: exactly `n` live elements
// constructors of its own and nothing to destroy: such an element must still be constructed wherever it lies
struct Placed
{
	int v; const Placed* self;
	Placed(int _v = 0) :v(_v), self(this) {}
	Placed(const Placed& o) :v(o.get()), self(this) {}
	Placed(Placed&& o) :v(o.get()), self(this) {}
	Placed& operator=(const Placed& o) { get(); v = o.get(); return *this; }
	Placed& operator=(Placed&& o) { get(); v = o.get(); return *this; }
	int get()const { MC_CHECK(self == this, "an element was not constructed where it is"); return v; }
	std::strong_ordering operator<=>(const Placed& o)const { return get() <=> o.get(); }
	bool operator==(const Placed& o)const { return get() == o.get(); }
};
template<> struct El<Placed> { static Placed make(int v) { return Placed(v); } static int read(const Placed& x) { return x.get(); } static const bool tracked = false; };
template<typename T> void checkLive(long n, const char* what)
{
	if (El<T>::tracked) MC_CHECK(mc::Registry::live() == n, "%s: %ld live elements, expected %ld", what, mc::Registry::live(), n);
}

// what enumerating a collection yields
template<typename E> Seq enumerate(const E& xs)
{
	typedef typename E::ElementType T;
	Seq r; IEnumerator<T>* e = xs.CreateEnumerator(); bool bad = false;
	while (e->Next()) { if (e->Index() != (vint)r.size()) bad = true; r.push_back(El<std::remove_cvref_t<T>>::read(e->Current())); if (r.size() > 100000) { bad = true; break; } }
	delete e;
	MC_CHECK(!bad, "enumeration: positions are not 0, 1, 2, ...");
	return r;
}

// full observation of a random access container
template<typename C> void sameSeq(const C& xs, const Seq& m, const char* what)
{
	typedef typename C::ElementType T;
	MC_CHECK(xs.Count() == (vint)m.size(), "%s: Count is %ld, expected %zu %s", what, (long)xs.Count(), m.size(), show(m).c_str());
	for (size_t i = 0; i < m.size(); i++)
	{
		int g = El<T>::read(xs.Get((vint)i));
		MC_CHECK(g == m[i], "%s: element %zu is %d, expected %s", what, i, g, show(m).c_str());
		MC_CHECK(El<T>::read(xs[(vint)i]) == m[i], "%s: operator[](%zu) differs, expected %s", what, i, show(m).c_str());
	}
	MC_CHECK(enumerate(xs) == m, "%s: enumeration differs, expected %s", what, show(m).c_str());
}
template<typename C> void rangeErrors(C& xs, vint n)
{
	const C& cx = xs;
	for (vint i : { (vint)-1, n, n + 1, std::numeric_limits<vint>::max(), std::numeric_limits<vint>::min() })
	{
		MC_CHECK(raises([&] { (void)&cx.Get(i); }), "Get(%ld) of %ld elements did not raise", (long)i, (long)n);
		MC_CHECK(raises([&] { (void)&cx[i]; }), "const operator[](%ld) of %ld elements did not raise", (long)i, (long)n);
		MC_CHECK(raises([&] { (void)&xs[i]; }), "operator[](%ld) of %ld elements did not raise", (long)i, (long)n);
	}
}

// the values of a number type next to its limits, in order
template<typename K> const std::vector<K>& extremesOf() { static const std::vector<K> v = [] { mc::Untracked u; typedef std::numeric_limits<K> L; std::vector<K> r; if constexpr (std::is_floating_point_v<K>) r = { -L::infinity(), L::lowest(), (K)-1, -L::min(), (K)0, L::denorm_min(), (K)1, L::max(), L::infinity() }; else { r = { L::min(), (K)(L::min() + 1), (K)(L::max() / 2), (K)(L::max() / 2 + 1), (K)(L::max() - 1), L::max(), (K)0, (K)1, (K)-1 }; std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); } return r; }(); return v; }
