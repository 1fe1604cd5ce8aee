// P05: strings are values. Histories over a few string variables that share storage in every possible way; after
// every operation all variables still hold their own content, and in the end all storage is released.
#include "strings.h"

template<typename T>
struct Vars
{
	static const int N = 3;
	ObjectString<T>* s[N]; Ref<T> m[N];
	T* external; // unmanaged memory outliving the strings
	Vars() { for (auto& p : s) p = new ObjectString<T>; external = new T[4]{ (T)'u', (T)'v', (T)'w', 0 }; }
	~Vars() { for (auto p : s) delete p; delete[] external; }
};

template<typename T> struct CallerText
{
	Ref<T> m{ (T)'g', (T)'h' }; T* b = new T[3]{ (T)'g', (T)'h', 0 };
	~CallerText() { b[0] = b[1] = (T)'#'; delete[] b; }
};
template<typename T>
static bool op(Ctx& c, Vars<T>& v, int n, int step)
{
	int d = c.choose(n);
	auto& S = *v.s[d]; auto& M = v.m[d];
	switch (c.choose(20))
	{
	case 0: { c.log("s%d = \"abcde\" (copied)", d); T lit[] = { 'a','b','c','d','e',0 }; S = lit; M = Ref<T>(lit, lit + 5); break; }
	case 1: { c.log("s%d = unmanaged", d); S = ObjectString<T>::Unmanaged(v.external); M = Ref<T>(v.external, v.external + 3); break; }
	case 2: { c.log("s%d = taken over", d); T* b = new T[3]{ (T)'p', (T)'q', 0 }; S = ObjectString<T>::TakeOver(b, 2); M = Ref<T>{ (T)'p',(T)'q' }; break; }
	case 3: { int j = c.choose(n); c.log("s%d = s%d", d, j); S = *v.s[j]; M = Ref<T>(v.m[j]); break; }
	case 4: { int j = c.choose(n); c.log("s%d = move(s%d)", d, j); S = std::move(*v.s[j]); if (j != d) { M = v.m[j]; v.m[j].clear(); } break; }
	case 5: { int j = c.choose(n); vint L = v.m[j].size(); c.log("s%d = s%d.Left(%ld)", d, j, (long)(L / 2)); S = v.s[j]->Left(L / 2); M = subRef(v.m[j], 0, L / 2); break; }
	case 6: { int j = c.choose(n); vint L = v.m[j].size(); vint k = L - L / 2; c.log("s%d = s%d.Right(%ld)", d, j, (long)k); S = v.s[j]->Right(k); M = subRef(v.m[j], L - k, k); break; }
	case 7: { int j = c.choose(n); vint L = v.m[j].size(); if (L < 2) return false; c.log("s%d = s%d.Sub(1,%ld)", d, j, (long)(L - 2)); S = v.s[j]->Sub(1, L - 2); M = subRef(v.m[j], 1, L - 2); break; }
	case 8: { int j = c.choose(n), k = c.choose(n); c.log("s%d = s%d + s%d", d, j, k); S = *v.s[j] + *v.s[k]; M = cat(v.m[j], v.m[k]); break; }
	case 9: { int j = c.choose(n); c.log("s%d += s%d", d, j); S += *v.s[j]; M = cat(M, Ref<T>(v.m[j])); break; }
	case 10: { c.log("s%d.Buffer()", d); sameBuffer(S, M, "Buffer"); break; }
	case 11: { int j = c.choose(n); c.log("s%d = s%d.Buffer()", d, j); Ref<T> e = v.m[j]; S = v.s[j]->Buffer(); M = e; break; }
	case 12: { if (M.empty()) return false; c.log("s%d = s%d.Remove(0,1)", d, d); S = S.Remove(0, 1); M.erase(M.begin()); break; }
	case 13: { int j = c.choose(n); vint L = M.size(); c.log("s%d = s%d.Insert(%ld, s%d)", d, d, (long)(L / 2), j); S = S.Insert(L / 2, *v.s[j]); M = cat(cat(subRef(M, 0, L / 2), v.m[j]), subRef(M, L / 2, L - L / 2)); break; }
	case 14: { c.log("destroy and recreate s%d", d); delete v.s[d]; v.s[d] = new ObjectString<T>; M.clear(); break; }
	case 15: { int j = c.choose(n); c.log("s%d = new copy of s%d", d, j); auto p = new ObjectString<T>(*v.s[j]); Ref<T> e = v.m[j]; delete v.s[d]; v.s[d] = p; M = e; break; }
	// text in a buffer of the caller, which is changed and released right afterwards
	case 16: { c.log("s%d += buffer", d); CallerText<T> t; S += t.b; M = cat(M, t.m); break; }
	case 17: { int j = c.choose(n); c.log("s%d = s%d + buffer", d, j); CallerText<T> t; Ref<T> e = cat(v.m[j], t.m); S = *v.s[j] + t.b; M = e; break; }
	case 18: { int j = c.choose(n); c.log("s%d = buffer + s%d", d, j); CallerText<T> t; Ref<T> e = cat(t.m, v.m[j]); S = t.b + *v.s[j]; M = e; break; }
	case 19: { c.log("s%d = CopyFrom(buffer) / constructed from buffer", d); CallerText<T> t; if (c.flip()) S = ObjectString<T>::CopyFrom(t.b, 2); else S = ObjectString<T>(t.b); M = t.m; break; }
	}
	return true;
}

template<typename T>
static void history(Ctx& c, int n, int depth)
{
	Vars<T> v;
	for (int i = 0; i < depth; i++)
	{
		if (!op(c, v, n, i)) break;
		c.step();
		uint64_t h = n;
		for (int k = 0; k < n; k++) { sameContent(*v.s[k], v.m[k], "a variable"); h = hashRef(v.m[k], h); }
		c.state(h);
	}
	for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) MC_CHECK((*v.s[k] == *v.s[j]) == (v.m[k] == v.m[j]), "equality of variables %d and %d", k, j);
	for (int k = 0; k < n; k++) { sameBuffer(*v.s[k], v.m[k], "a variable at the end"); for (int j = 0; j < n; j++) sameContent(*v.s[j], v.m[j], "a variable after another one's Buffer"); }
	MC_CHECK(v.external[0] == 'u' && v.external[1] == 'v' && v.external[2] == 'w' && v.external[3] == 0, "unmanaged memory was modified");
}
MC_SCENARIO(two_vars_wchar, 64, 4) { history<wchar_t>(c, 2, c.bound(4, 5)); }
MC_SCENARIO(three_vars_char, 64, 4) { history<char>(c, 3, c.bound(3, 4)); }
MC_SCENARIO(two_vars_u8, 32, 4) { history<char8_t>(c, 2, c.bound(3, 4)); }
MC_SCENARIO(two_vars_u16, 32, 4) { history<char16_t>(c, 2, c.bound(3, 4)); }
MC_SCENARIO(two_vars_u32, 32, 4) { history<char32_t>(c, 2, c.bound(3, 4)); }

// a buffer shared by many parts stays valid until the last part is gone, in every order of releasing them
MC_SCENARIO(release_orders, 16, 2)
{
	const int K = 5; Ref<wchar_t> m; for (int i = 0; i < 12; i++) m.push_back(L'a' + i);
	WString* p[K]; Ref<wchar_t> e[K];
	p[0] = new WString(WString::CopyFrom(m.data(), 12)); e[0] = m;
	int cut = c.choose(4);
	p[1] = new WString(p[0]->Left(6 + cut)); e[1] = subRef(m, 0, 6 + cut);
	p[2] = new WString(p[1]->Right(4)); e[2] = subRef(e[1], (vint)e[1].size() - 4, 4);
	p[3] = new WString(p[0]->Sub(cut, 5)); e[3] = subRef(m, cut, 5);
	p[4] = new WString(p[3]->Sub(1, 3)); e[4] = subRef(e[3], 1, 3);
	bool gone[K] = {};
	for (int k = 0; k < K; k++)
	{
		int left = 0; for (bool g : gone) left += !g;
		int t = c.choose(left * 2); bool flatten = t % 2; t /= 2;
		int i = 0; for (;; i++) if (!gone[i] && t-- == 0) break;
		c.log("%s%d", flatten ? "Buffer, then release part " : "release part ", i);
		if (flatten) sameBuffer(*p[i], e[i], "part");
		delete p[i]; gone[i] = true;
		for (int j = 0; j < K; j++) if (!gone[j]) sameContent(*p[j], e[j], "a remaining part");
		c.step();
		uint64_t h = cut; for (bool g : gone) h = mc::mix(h, g); c.state(h);
	}
}
// many handles
MC_SCENARIO(many_copies, 8, 1)
{
	int n = 1 + c.choose(c.bound(300, 1000)); int order = c.choose(3);
	Ref<wchar_t> m = { L'x', L'y', L'z' }; c.log("%d copies, order %d", n, order);
	WString* p = new WString[n]; p[0] = WString::CopyFrom(m.data(), 3); for (int i = 1; i < n; i++) p[i] = i % 3 == 2 ? p[i - 1].Left(3) : p[i - 1];
	for (int k = 0; k < n; k++) { int i = order == 0 ? k : order == 1 ? n - 1 - k : (k % 2 ? n - 1 - k / 2 : k / 2); sameContent(p[i], m, "copy"); p[i] = WString(); c.step(); }
	delete[] p; c.state(n * 4 + order);
}
