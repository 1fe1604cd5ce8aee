// P04: every string operation equals the same operation on a plain sequence of code units.
#include "strings.h"

// ---- one string, every operation with every argument in and around its range ----
template<typename T>
static void unary(Ctx& c, int maxLen, std::initializer_list<int> alphabet)
{
	int form = c.choose(Forms);
	Ref<T> m = chooseRef<T>(c, maxLen, alphabet);
	Maker<T> mk; auto s = mk.make(m, form);
	vint n = (vint)m.size();
	c.state(hashRef(m, form)); c.log("form %d content %s", form, show(m).c_str());
	sameContent(s, m, "construction"); c.step();
	for (vint i = -2; i <= n + 2; i++)
	{
		if (i < 0 || i >= n) MC_CHECK(raises([&] { (void)s[i]; }), "reading code unit %ld of %ld does not raise an error", (long)i, (long)n);
		bool ok = i >= 0 && i <= n;
		if (ok)
		{
			sameContent(s.Left(i), subRef(m, 0, i), "Left"); sameContent(s.Right(i), subRef(m, n - i, i), "Right");
			sameBuffer(s.Left(i), subRef(m, 0, i), "Left"); sameBuffer(s.Right(i), subRef(m, n - i, i), "Right");
		}
		else MC_CHECK(raises([&] { s.Left(i); }) && raises([&] { s.Right(i); }), "Left/Right(%ld) of %ld units does not raise an error", (long)i, (long)n);
		c.step(2);
		for (vint k = -2; k <= n + 2; k++)
		{
			bool in = ok && k >= 0 && i + k <= n;
			if (in) { auto r = s.Sub(i, k); sameContent(r, subRef(m, i, k), "Sub"); sameBuffer(r, subRef(m, i, k), "Sub"); }
			else MC_CHECK(raises([&] { s.Sub(i, k); }), "Sub(%ld,%ld) of %ld units does not raise an error", (long)i, (long)k, (long)n);
			if (in && i < n) { auto r = s.Remove(i, k); auto e = cat(subRef(m, 0, i), subRef(m, i + k, n - i - k)); sameContent(r, e, "Remove"); sameBuffer(r, e, "Remove"); }
			else MC_CHECK(raises([&] { s.Remove(i, k); }), "Remove(%ld,%ld) of %ld units does not raise an error", (long)i, (long)k, (long)n);
			c.step(2);
		}
	}
	for (int l = 0; l < 6; l++)
	{
		vint e = -1; for (vint i = 0; i < n; i++) if (m[i] == letter<T>(l)) { e = i; break; }
		MC_CHECK(s.IndexOf(letter<T>(l)) == e, "IndexOf gives %ld, expected %ld", (long)s.IndexOf(letter<T>(l)), (long)e); c.step();
	}
	sameContent(s, m, "the string after all operations"); sameBuffer(s, m, "the string"); sameContent(s, m, "the string after Buffer");
}
// ---- two strings: concatenation and insertion ----
template<typename T>
static void binary(Ctx& c, int maxLen, std::initializer_list<int> alphabet)
{
	int fa = c.choose(Forms), fb = c.choose(Forms);
	Ref<T> a = chooseRef<T>(c, maxLen, alphabet), b = chooseRef<T>(c, maxLen, alphabet);
	Maker<T> mk; auto x = mk.make(a, fa), y = mk.make(b, fb);
	c.state(hashRef(b, hashRef(a, fa * 8 + fb))); c.log("forms %d %d, %s and %s", fa, fb, show(a).c_str(), show(b).c_str());
	sameContent(x + y, cat(a, b), "concatenation"); sameBuffer(x + y, cat(a, b), "concatenation"); c.step();
	{ auto z = x; z += y; sameContent(z, cat(a, b), "+="); sameContent(x, a, "left of +="); z += z; sameContent(z, cat(cat(a, b), cat(a, b)), "s += s"); c.step(2); }
	if (!hasZero(b))
	{
		Ref<T> bz = b; bz.push_back(0); // exactly sized memory: reading past the terminator is caught
		T* lit = new T[bz.size()]; for (size_t i = 0; i < bz.size(); i++) lit[i] = bz[i];
		auto r1 = x + lit; auto r2 = lit + x; auto z = x; z += lit; ObjectString<T> w(lit);
		delete[] lit;
		sameContent(r1, cat(a, b), "string + literal"); sameContent(r2, cat(b, a), "literal + string"); sameContent(z, cat(a, b), "string += literal"); sameContent(w, b, "from literal");
		sameBuffer(r1, cat(a, b), "string + literal"); sameBuffer(r2, cat(b, a), "literal + string");
		c.step(4);
	}
	vint n = (vint)a.size();
	for (vint i = -2; i <= n + 2; i++)
	{
		if (i >= 0 && i <= n) { auto e = cat(cat(subRef(a, 0, i), b), subRef(a, i, n - i)); auto r = x.Insert(i, y); sameContent(r, e, "Insert"); sameBuffer(r, e, "Insert"); }
		else MC_CHECK(raises([&] { x.Insert(i, y); }), "Insert at %ld of %ld units does not raise an error", (long)i, (long)n);
		c.step();
	}
	sameContent(x.Insert(n / 2, x), cat(cat(subRef(a, 0, n / 2), a), subRef(a, n / 2, n - n / 2)), "insertion into itself");
	sameContent(x, a, "left operand"); sameContent(y, b, "right operand"); sameBuffer(x, a, "left operand"); sameBuffer(y, b, "right operand");
}
// ---- factories ----
template<typename T>
static void factories(Ctx& c)
{
	int k = c.choose(6);
	switch (k)
	{
	case 0: MC_CHECK(raises([] { ObjectString<T> s((const T*)nullptr); }), "construction from nullptr does not raise an error"); break;
	case 1: MC_CHECK(raises([] { ObjectString<T>::Unmanaged(nullptr); }), "unmanaged nullptr does not raise an error"); break;
	case 2: MC_CHECK(raises([] { T b[2] = {}; ObjectString<T>::CopyFrom(b, -1); }), "negative length does not raise an error"); break;
	case 3: { T b[3] = { 'a','b',0 }; T* p = b; MC_CHECK(raises([=] { ObjectString<T>::TakeOver(p, -1); }) && raises([=] { ObjectString<T>::TakeOver(p, 1); }), "taking over a bad buffer does not raise an error"); break; }
	case 4: for (int l = 0; l < 6; l++) { T ch = letter<T>(l); Ref<T> e; if (ch) e.push_back(ch); sameContent(ObjectString<T>::FromChar(ch), e, "FromChar"); } break;
	case 5: { ObjectString<T> e; sameContent(e, {}, "default"); sameBuffer(e, {}, "default"); sameContent(ObjectString<T>::Empty, {}, "Empty"); sameBuffer(ObjectString<T>::Empty, {}, "Empty"); break; }
	}
	c.step(); c.state(k + sizeof(T) * 100); c.log("factory case %d", k);
}
// ---- long strings: every length up to a bound, every cut ----
template<typename T>
static void lengths(Ctx& c, int maxLen)
{
	int n = c.choose(maxLen + 1); int form = c.choose(Forms);
	Ref<T> m; for (int i = 0; i < n; i++) m.push_back((T)('A' + i % 57));
	Maker<T> mk; auto s = mk.make(m, form); c.state(n * 8 + form); c.log("length %d form %d", n, form);
	sameContent(s, m, "construction");
	for (int i = 0; i <= n; i++)
	{
		auto l = s.Left(i), r = s.Right(n - i);
		sameContent(l, subRef(m, 0, i), "Left"); sameContent(r, subRef(m, i, n - i), "Right");
		sameContent(l + r, m, "Left + Right"); sameBuffer(l, subRef(m, 0, i), "Left"); sameBuffer(r, subRef(m, i, n - i), "Right");
		Ref<T> ins = { (T)'!', (T)'?' }; auto e = cat(cat(subRef(m, 0, i), ins), subRef(m, i, n - i)); T lit[] = { (T)'!', (T)'?', 0 };
		sameContent(s.Insert(i, ObjectString<T>(lit)), e, "Insert");
		for (int k : { 0, 1, 2, 5, (n - i) / 2, n - i - 1, n - i }) if (k >= 0 && i + k <= n)
		{
			sameContent(s.Sub(i, k), subRef(m, i, k), "Sub");
			if (i < n) sameContent(s.Remove(i, k), cat(subRef(m, 0, i), subRef(m, i + k, n - i - k)), "Remove");
			c.step(2);
		}
		c.step(5);
	}
	for (int i = 0; i < 57; i++) { vint e = i < n ? i : -1; MC_CHECK(s.IndexOf((T)('A' + i)) == e, "IndexOf"); c.step(); }
	sameBuffer(s, m, "buffer"); sameContent(s + s, cat(m, m), "doubling");
}
// ---- large strings around every power of two, cut at characteristic places ----
template<typename T>
static void large(Ctx& c, int top)
{
	int n = mc::bigSize(c, 100, top); int form = c.choose(Forms); Ref<T> m; for (int i = 0; i < n; i++) m.push_back((T)('A' + (i * 7 + i / 50) % 57)); m[n - 3] = (T)'~'; m[n / 2] = (T)'{';
	Maker<T> mk; auto s = mk.make(m, form); c.state(n * 8 + form); c.log("length %d form %d", n, form); sameContent(s, m, "construction");
	for (int i : { 0, 1, 15, 16, 63, 64, 65, n / 2 - 1, n / 2, n - 65, n - 64, n - 63, n - 2, n - 1, n })
	{
		if (i < 0 || i > n) continue; auto l = s.Left(i), r = s.Right(n - i); sameContent(l, subRef(m, 0, i), "Left"); sameContent(r, subRef(m, i, n - i), "Right"); sameContent(l + r, m, "Left + Right"); sameBuffer(l, subRef(m, 0, i), "Left");
		Ref<T> ins(i % 70 + 1, (T)'!'); sameContent(s.Insert(i, ObjectString<T>::CopyFrom(ins.data(), (vint)ins.size())), cat(cat(subRef(m, 0, i), ins), subRef(m, i, n - i)), "Insert");
		for (int k : { 1, 64, (n - i) / 2, n - i }) if (i + k <= n && i < n) { auto x = s.Sub(i, k); sameContent(x, subRef(m, i, k), "Sub"); sameBuffer(x, subRef(m, i, k), "Sub"); sameContent(s.Remove(i, k), cat(subRef(m, 0, i), subRef(m, i + k, n - i - k)), "Remove"); c.step(2); }
		c.step(5);
	}
	MC_CHECK(s.IndexOf((T)'~') == n - 3 && s.IndexOf((T)'{') == n / 2 && s.IndexOf((T)'}') == -1, "IndexOf in %d characters", n); sameBuffer(s, m, "buffer"); sameContent(s + s, cat(m, m), "doubling"); sameContent(s, m, "the original");
}
// ---- arguments at the ends of the range of integers ----
template<typename T>
static void extremes(Ctx& c)
{
	int n = c.choose(4); int form = c.choose(Forms); Ref<T> m(n, (T)'q'); Maker<T> mk; auto s = mk.make(m, form); const vint M = 0x7fffffffffffffffll, N = -M - 1; vint v = c.pick({ M, N, M - 1, N + 1, (vint)0x7fffffff, (vint)0x80000000ll, (vint)0x100000000ll, (vint)-0x100000000ll, (vint)0xffffffffll }); c.log("length %d form %d argument %lld", n, form, (long long)v);
	MC_CHECK(raises([&] { (void)s[v]; }), "operator[] did not raise"); MC_CHECK(raises([&] { s.Left(v); }), "Left did not raise"); MC_CHECK(raises([&] { s.Right(v); }), "Right did not raise"); MC_CHECK(raises([&] { s.Insert(v, s); }), "Insert did not raise"); MC_CHECK(raises([&] { s.Sub(v, 0); }), "Sub(v, 0) did not raise"); MC_CHECK(raises([&] { s.Remove(v, 0); }), "Remove(v, 0) did not raise"); MC_CHECK(raises([&] { s.Sub(v, v); }), "Sub(v, v) did not raise");
	for (int i = 0; i <= n; i++) MC_CHECK(raises([&] { s.Sub(i, v); }) && raises([&] { s.Remove(i, v); }), "Sub or Remove of %lld at %d did not raise", (long long)v, i);
	sameContent(s, m, "the string"); c.step(8); c.state(mc::mix(v, n * 8 + form));
}
// ---- unsafe casts between equally sized character types ----
MC_SCENARIO(casts, 4, 1)
{
	int form = c.choose(Forms); Ref<wchar_t> m = chooseRef<wchar_t>(c, 3, { 0, 3, 4 }); Maker<wchar_t> mk; auto s = mk.make(m, form);
	Ref<char32_t> e(m.begin(), m.end()); auto r = U32String::UnsafeCastFrom(s); sameContent(r, e, "cast"); sameBuffer(r, e, "cast"); sameContent(s, m, "source of a cast");
	auto back = WString::UnsafeCastFrom(r); sameContent(back, m, "cast back"); c.step(2); c.state(hashRef(m, form));
	Ref<char> ma = chooseRef<char>(c, 2, { 0, 3 }); Maker<char> mka; auto sa = mka.make(ma, form); Ref<char8_t> e8(ma.begin(), ma.end()); auto r8 = U8String::UnsafeCastFrom(sa); sameContent(r8, e8, "cast"); sameBuffer(r8, e8, "cast"); c.step();
}
#define PER_TYPE(NAME, T) \
	MC_SCENARIO(unary_##NAME, 16, 3) { unary<T>(c, c.bound(5, 7), { 0, 1, 3 }); } \
	MC_SCENARIO(unary_zero_##NAME, 8, 3) { unary<T>(c, c.bound(3, 5), { 0, 5, 4 }); } \
	MC_SCENARIO(binary_##NAME, 16, 3) { binary<T>(c, c.bound(2, 3), { 0, 1, 3 }); } \
	MC_SCENARIO(binary_zero_##NAME, 8, 3) { binary<T>(c, 2, { 0, 5 }); } \
	MC_SCENARIO(lengths_##NAME, 16, 1) { lengths<T>(c, c.bound(140, 600)); } \
	MC_SCENARIO(large_##NAME, 16, 1) { large<T>(c, c.bound(1100, 70000)); } \
	MC_SCENARIO(extremes_##NAME, 1, 1) { extremes<T>(c); } \
	MC_SCENARIO(factories_##NAME, 1, 1) { factories<T>(c); }
PER_TYPE(char, char)
PER_TYPE(wchar, wchar_t)
PER_TYPE(u8, char8_t)
PER_TYPE(u16, char16_t)
PER_TYPE(u32, char32_t)
