// P06: string comparison is the lexicographic order of code units: a total order consistent with equality.
#include "strings.h"

template<typename T> static std::strong_ordering ref(const Ref<T>& a, const Ref<T>& b)
{
	for (size_t i = 0; i < a.size() && i < b.size(); i++) { if (a[i] < b[i]) return std::strong_ordering::less; if (b[i] < a[i]) return std::strong_ordering::greater; }
	return a.size() <=> b.size();
}
template<typename T> static void pair(Ctx& c, const ObjectString<T>& x, const ObjectString<T>& y, const Ref<T>& a, const Ref<T>& b)
{
	auto e = ref(a, b);
	MC_CHECK((x <=> y) == e, "three-way comparison is wrong"); MC_CHECK((y <=> x) == (0 <=> e), "reversed comparison is wrong");
	MC_CHECK((x == y) == (e == 0) && (x != y) == (e != 0), "equality is wrong");
	MC_CHECK((x < y) == (e < 0) && (x <= y) == (e <= 0) && (x > y) == (e > 0) && (x >= y) == (e >= 0), "relational operators disagree");
	c.step(8);
	if (!hasZero(b))
	{
		T* lit = new T[b.size() + 1]; for (size_t i = 0; i < b.size(); i++) lit[i] = b[i]; lit[b.size()] = 0;
		bool ok = (x <=> (const T*)lit) == e && ((const T*)lit <=> x) == (0 <=> e) && (x == (const T*)lit) == (e == 0) && ((const T*)lit == x) == (e == 0) &&
			(x < (const T*)lit) == (e < 0) && ((const T*)lit < x) == (e > 0) && (x != (const T*)lit) == (e != 0);
		delete[] lit;
		MC_CHECK(ok, "comparison with a literal is wrong"); c.step(7);
	}
}
template<typename T> static void pairs(Ctx& c, int maxLen, std::initializer_list<int> alphabet)
{
	int fa = c.choose(Forms), fb = c.choose(Forms);
	Ref<T> a = chooseRef<T>(c, maxLen, alphabet), b = chooseRef<T>(c, maxLen, alphabet);
	Maker<T> mk; auto x = mk.make(a, fa), y = mk.make(b, fb);
	c.state(hashRef(b, hashRef(a, fa * 8 + fb))); c.log("forms %d %d, %s against %s", fa, fb, show(a).c_str(), show(b).c_str());
	pair(c, x, y, a, b);
}
// parts of one shared buffer, where the two operands overlap or coincide
template<typename T> static void overlaps(Ctx& c, int n)
{
	Ref<T> m; for (int i = 0; i < n; i++) m.push_back(letter<T>(c.choose(2)));
	auto s = ObjectString<T>::CopyFrom(m.data(), n); c.log("parts of %s", show(m).c_str());
	for (int i = 0; i <= n; i++) for (int k = 0; i + k <= n; k++) for (int j = 0; j <= n; j++) for (int l = 0; j + l <= n; l++)
		pair(c, s.Sub(i, k), s.Sub(j, l), subRef(m, i, k), subRef(m, j, l));
	c.state(hashRef(m));
}
// long strings that differ in one position only
template<typename T> static void longOnes(Ctx& c, int maxLen)
{
	int n = c.choose(maxLen) + 1; int p = c.choose(n + 1); int form = c.choose(4);
	Ref<T> a; for (int i = 0; i < n; i++) a.push_back((T)('a' + i % 26)); Ref<T> b = a;
	if (p < n) b[p] = letter<T>(3 + form % 2); else b.push_back((T)'q');
	Maker<T> mk; auto x = mk.make(a, form * 2), y = mk.make(b, 7 - form); c.log("length %d differing at %d", n, p); c.state(n * 1000 + p * 4 + form);
	pair(c, x, y, a, b); pair(c, x, mk.make(a, 7 - form), a, a);
}
template<typename T> static void largeOnes(Ctx& c, int top)
{
	int n = mc::bigSize(c, 60, top), where = c.choose(8), form = c.choose(4); int ps[] = { 0, 1, n / 2, n - 2, n - 1, n, 63, 64 }; int p = ps[where];
	Ref<T> a; for (int i = 0; i < n; i++) a.push_back((T)('a' + i % 26)); Ref<T> b = a; if (p < n) b[p] = c.flip() ? letter<T>(3 + form % 2) : (T)(b[p] + 1); else b.push_back((T)'q');
	Maker<T> mk; auto x = mk.make(a, form * 2), y = mk.make(b, 7 - form); c.log("length %d differing at %d", n, p); c.state(n * 1000 + where * 4 + form); pair(c, x, y, a, b); pair(c, x, mk.make(a, 7 - form), a, a);
}
#define PER_TYPE(NAME, T) \
	MC_SCENARIO(large_##NAME, 8, 1) { largeOnes<T>(c, c.bound(5000, 70000)); } \
	MC_SCENARIO(pairs_##NAME, 32, 3) { pairs<T>(c, c.bound(3, 4), { 0, 1, 3 }); } \
	MC_SCENARIO(pairs_zero_##NAME, 16, 3) { pairs<T>(c, c.bound(2, 3), { 0, 5, 4, 3 }); } \
	MC_SCENARIO(overlaps_##NAME, 4, 2) { overlaps<T>(c, c.bound(6, 8)); } \
	MC_SCENARIO(long_##NAME, 8, 1) { longOnes<T>(c, c.bound(64, 200)); }
PER_TYPE(char, char)
PER_TYPE(wchar, wchar_t)
PER_TYPE(u8, char8_t)
PER_TYPE(u16, char16_t)
PER_TYPE(u32, char32_t)
// every code unit against every other (8 bits), or against its neighbours, its other case and every boundary
template<typename T> static void units(Ctx& c)
{
	typedef std::conditional_t<sizeof(T) == 1, uint8_t, std::conditional_t<sizeof(T) == 2, uint16_t, uint32_t>> U; std::vector<U> as, bs; Maker<T> mk;
	if (sizeof(T) == 1) { as.push_back((U)c.choose(256)); for (int b = 0; b < 256; b++) bs.push_back((U)b); }
	else { int page = c.choose(256); for (int k = 0; k < 256; k += c.thorough ? 1 : 5) as.push_back((U)(page * 256 + k)); for (uint64_t b : { 0ull, 1ull, 0x20ull, 0x41ull, 0x61ull, 0x7Full, 0x80ull, 0xFFull, 0x100ull, 0x7FFFull, 0x8000ull, 0xD7FFull, 0xD800ull, 0xDC00ull, 0xE000ull, 0xFFFFull, 0x10000ull, 0x10FFFFull, 0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull }) bs.push_back((U)b); }
	for (U a : as)
	{
		c.state(a); auto one = [&](U b) { Ref<T> x = { (T)a }, y = { (T)b }; pair(c, mk.make(x, 0), mk.make(y, 0), x, y); Ref<T> p = { (T)'k', (T)a, (T)b }, q = { (T)'k', (T)b, (T)a }; auto s = ObjectString<T>::CopyFrom(p.data(), 3), t = ObjectString<T>::CopyFrom(q.data(), 3); pair(c, s, t, p, q); pair(c, s.Sub(1, 1), t.Sub(1, 1), x, y); };
		for (U b : bs) one(b); if (sizeof(T) > 1) for (U b : { (U)(a + 1), (U)(a - 1), (U)(a ^ 0x20), (U)(a ^ 0x8000), (U)(a + 0x100), (U)~a }) one(b);
	}
	c.log("units from %X", (unsigned)as[0]);
}
MC_SCENARIO(units_char, 16, 1) { units<char>(c); }
MC_SCENARIO(units_char8, 16, 1) { units<char8_t>(c); }
MC_SCENARIO(units_char16, 16, 1) { units<char16_t>(c); }
MC_SCENARIO(units_char32, 16, 1) { units<char32_t>(c); }
MC_SCENARIO(units_wchar, 16, 1) { units<wchar_t>(c); }
