#pragma once
#include <mc.h>
#include <Strings/String.h>
#include <string>
#include <vector>
#include <map>
using namespace vl;
using mc::Ctx;

template<typename T> using Ref = std::vector<T>; // reference string: a plain sequence of code units

template<typename T> T letter(int i)
{
	// 0..2: ordinary letters, 3: the largest code unit, 4: a unit with the top bit set, 5: zero
	switch (i)
	{
	case 0: return (T)'a'; case 1: return (T)'b'; case 2: return (T)'c';
	case 3: return (T)~(T)0;
	case 4: return (T)((T)1 << (sizeof(T) * 8 - 1));
	default: return (T)0;
	}
}

template<typename T> Ref<T> cat(const Ref<T>& a, const Ref<T>& b) { Ref<T> r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
template<typename T> Ref<T> subRef(const Ref<T>& a, vint i, vint n) { return Ref<T>(a.begin() + i, a.begin() + i + n); }
template<typename T> std::string show(const Ref<T>& r)
{
	std::string s = "\"";
	for (auto x : r) { if (x >= 32 && x < 127) s += (char)x; else { char b[24]; snprintf(b, sizeof b, "\\x%llx", (unsigned long long)(typename std::make_unsigned<std::conditional_t<std::is_same_v<T, wchar_t>, int, std::conditional_t<std::is_same_v<T, char8_t>, unsigned char, std::conditional_t<std::is_same_v<T, char16_t>, unsigned short, std::conditional_t<std::is_same_v<T, char32_t>, unsigned, T>>>>>::type)x); s += b; } }
	return s + "\"";
}
template<typename T> uint64_t hashRef(const Ref<T>& r, uint64_t h = 3) { for (auto x : r) h = mc::mix(h, (uint64_t)x); return mc::mix(h, r.size()); }

// content through Length and operator[] only (does not touch the representation)
template<typename T> void sameContent(const ObjectString<T>& s, const Ref<T>& m, const char* what)
{
	MC_CHECK(s.Length() == (vint)m.size(), "%s: length %ld, expected %ld", what, (long)s.Length(), (long)m.size());
	for (size_t i = 0; i < m.size(); i++) MC_CHECK(s[(vint)i] == m[i], "%s: code unit %zu differs", what, i);
}
template<typename T> void sameBuffer(const ObjectString<T>& s, const Ref<T>& m, const char* what)
{
	const T* b = s.Buffer();
	for (size_t i = 0; i < m.size(); i++) MC_CHECK(b[i] == m[i], "%s: buffer code unit %zu differs", what, i);
	MC_CHECK(b[m.size()] == 0, "%s: the buffer is not zero terminated", what);
	MC_CHECK(s.Buffer() == b, "%s: asking for the buffer again moves it", what);
}
template<typename T> bool hasZero(const Ref<T>& m) { for (auto x : m) if (x == 0) return true; return false; }

template<typename F> bool raises(F&& f)
{
	try { f(); }
	catch (const vl::Error&) { return true; }
	return false;
}

const int Forms = 8;
// the same content in different internal representations; `keep` holds memory and neighbours that must stay alive
template<typename T>
struct Maker
{
	std::vector<std::vector<T>> mem;
	std::vector<ObjectString<T>> neighbours;
	Maker() { mem.reserve(64); }
	ObjectString<T> make(const Ref<T>& m, int form)
	{
		auto owned = [&](const Ref<T>& r) { return r.empty() ? ObjectString<T>::CopyFrom(nullptr, 0) : ObjectString<T>::CopyFrom(r.data(), (vint)r.size()); };
		Ref<T> pad = { (T)'x', (T)'y' };
		vint n = (vint)m.size();
		switch (form)
		{
		case 0: return owned(m);
		case 1: { Ref<T> z = m; z.push_back(0); if (hasZero(m)) return owned(m); return ObjectString<T>(z.data()); }
		case 2: return owned(cat(pad, cat(m, pad))).Sub(2, n);      // inner part of a larger string
		case 3: return owned(cat(m, pad)).Left(n);                  // prefix
		case 4: return owned(cat(pad, m)).Right(n);                 // suffix
		case 5: { if (hasZero(m)) return owned(m); mem.push_back(m); mem.back().push_back(0); return ObjectString<T>::Unmanaged(mem.back().data()); }
		case 6: { T* b = new T[n + 1]; for (vint i = 0; i < n; i++) b[i] = m[i]; b[n] = 0; return ObjectString<T>::TakeOver(b, n); }
		default: { auto s = owned(cat(pad, cat(m, pad))).Sub(2, n); s.Buffer(); return s; } // detached from a shared buffer
		}
	}
};

template<typename T> Ref<T> chooseRef(Ctx& c, int maxLen, std::initializer_list<int> alphabet)
{
	int n = c.choose(maxLen + 1); Ref<T> r;
	for (int i = 0; i < n; i++) r.push_back(letter<T>(alphabet.begin()[c.choose((int)alphabet.size())]));
	return r;
}
