// P03: threads that use their own handles to one object. The interleavings are enumerated by lib/sched.
#include <mcsched.h>
#include <Primitives/Pointer.h>
#include <Primitives/Function.h>
#include <Strings/String.h>
using namespace vl;
using mc::Ctx;

// ---- what is shared: an object whose destruction overwrites it ---------------------------------------------------
struct Base { int payload; Base(int p) :payload(p) { mc::Registry::add(this, "construction of the shared object"); } virtual ~Base() { mc::Registry::remove(this, "destruction of the shared object"); payload = -1; } };
struct Thing : Base { int more; Thing(int p) :Base(p), more(p + 1) {} ~Thing() { more = -1; } };
struct Com { int payload; Com(int p) :payload(p) { mc::Registry::add(this, "construction of the shared object"); } ~Com() { mc::Registry::remove(this, "destruction of the shared object"); payload = -1; } void Release() { delete this; } };
struct Inner { atomic_vint counter{ 0 }; int payload; Inner(int p) :payload(p) { mc::Registry::add(this, "construction of the shared object"); } ~Inner() { mc::Registry::remove(this, "destruction of the shared object"); payload = -1; } };
namespace vl { template<> struct ReferenceCounterOperator<Inner, void> { static atomic_vint* CreateCounter(Inner* r) { return &r->counter; } static void DeleteReference(atomic_vint*, void* r) { delete (Inner*)r; } }; }

// a program: for each thread a list of operations on its two handles
struct Op { int kind; };
typedef std::vector<std::vector<int>> Programs;
static Programs choosePrograms(Ctx& c, int threads, int length, int kinds)
{
	Programs p(threads);
	for (auto& t : p) for (int i = 0; i < length; i++) t.push_back(c.choose(kinds));
	return p;
}
// identical threads: only ordered tuples of programs are needed
static bool canonical(const Programs& p) { for (size_t i = 1; i < p.size(); i++) if (p[i] < p[i - 1]) return false; return true; }
static uint64_t hashPrograms(const Programs& p, uint64_t h) { for (auto& t : p) for (int x : t) h = mc::mix(h, x); return h; }
static void logPrograms(Ctx& c, const Programs& p, const char* const* names) { if (!c.logging) return; for (size_t i = 0; i < p.size(); i++) { std::string s; for (int x : p[i]) s += std::string(s.empty() ? "" : "; ") + names[x]; c.log("thread %zu: %s", i + 1, s.c_str()); } }

// ---- shared pointers -----------------------------------------------------------------------------------------------
template<typename H> struct Kind;
template<> struct Kind<Ptr<Thing>> { typedef Thing Object; static int read(Thing* t) { return t->payload == t->more - 1 ? t->payload : -2; } };
template<> struct Kind<ComPtr<Com>> { typedef Com Object; static int read(Com* t) { return t->payload; } };
template<> struct Kind<Ptr<Inner>> { typedef Inner Object; static int read(Inner* t) { return t->payload; } };

static const char* const ptrNames[] = { "b = a", "b = move(a)", "a = null", "read a", "a = b", "b = the common handle", "a temporary copy of a", "a = move(b)", "b = cast of a" };
template<typename H> void pointers(Ctx& c, int threads, int length, int kinds, int preemptions)
{
	typedef typename Kind<H>::Object O;
	auto prog = choosePrograms(c, threads, length, kinds); if (!canonical(prog)) return;
	bool keep = c.flip(); int second = c.choose(2); // the creating thread drops its handle first; the second handle starts empty or with another object
	logPrograms(c, prog, ptrNames); c.log("the creating thread %s its handle, b starts %s", keep ? "keeps" : "drops", second ? "with another object" : "empty");
	{
		O* x = new O(1); O* y = new O(5); H common(x), other(y); H h[4][2];
		for (int t = 0; t < threads; t++) { h[t][0] = common; if (second) h[t][1] = other; }
		other = nullptr; if (!keep) common = nullptr;
		std::vector<std::function<void()>> bodies;
		for (int t = 0; t < threads; t++) bodies.push_back([&, t]
		{
			H a(std::move(h[t][0])), b(std::move(h[t][1])); int ma = 1, mb = second ? 5 : 0;
			for (int op : prog[t])
			{
				switch (op)
				{
				case 0: b = a; mb = ma; break;
				case 1: b = std::move(a); mb = ma; ma = 0; break;
				case 2: a = nullptr; ma = 0; break;
				case 3: break;
				case 4: a = b; ma = mb; break;
				case 5: if (keep) { const H& src = common; b = src; mb = 1; } break;
				case 6: { H t(a); if (t) MC_CHECK(Kind<H>::read(t.Obj()) == ma, "a copy refers to something else"); break; }
				case 7: a = std::move(b); ma = mb; mb = 0; break;
				case 8: if constexpr (std::is_same_v<H, Ptr<Thing>>) { Ptr<Base> base = a; b = base.template Cast<Thing>(); mb = ma; } break;
				}
				MC_CHECK((bool)a == (ma != 0) && (bool)b == (mb != 0), "thread %d: a handle is empty or full by mistake", sched::self());
				if (a) MC_CHECK(Kind<H>::read(a.Obj()) == ma, "thread %d: handle a refers to something else", sched::self());
				if (b) MC_CHECK(Kind<H>::read(b.Obj()) == mb, "thread %d: handle b refers to something else", sched::self());
			}
		});
		sched::run(c, std::move(bodies), preemptions, hashPrograms(prog, keep * 2 + second));
		MC_CHECK(mc::Registry::live() == (keep ? 1 : 0), "%ld objects are alive after the threads have ended, expected %d", mc::Registry::live(), keep ? 1 : 0);
		if (keep) { MC_CHECK(Kind<H>::read(common.Obj()) == 1, "the common handle refers to something else"); common = nullptr; }
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld objects were never destroyed", mc::Registry::live());
}
MC_SCENARIO(ptr_two_threads, 64, 6) { pointers<Ptr<Thing>>(c, 2, c.bound(2, 3), 9, c.bound(4, 3)); }
MC_SCENARIO(ptr_two_threads_long, 64, 6) { pointers<Ptr<Thing>>(c, 2, c.bound(3, 4), c.bound(6, 5), 2); }
MC_SCENARIO(ptr_three_threads, 64, 6) { pointers<Ptr<Thing>>(c, 3, c.bound(1, 2), 9, c.bound(3, 2)); }
MC_SCENARIO(comptr_two_threads, 64, 6) { pointers<ComPtr<Com>>(c, 2, c.bound(2, 3), 8, c.bound(-1, 3)); }
MC_SCENARIO(comptr_three_threads, 64, 6) { pointers<ComPtr<Com>>(c, 3, c.bound(1, 2), 8, c.bound(3, 2)); }
MC_SCENARIO(intrusive_two_threads, 64, 6) { pointers<Ptr<Inner>>(c, 2, c.bound(2, 3), 8, c.bound(-1, 3)); }
MC_SCENARIO(intrusive_three_threads, 64, 6) { pointers<Ptr<Inner>>(c, 3, c.bound(1, 2), 8, c.bound(3, 2)); }

// ---- strings -------------------------------------------------------------------------------------------------------
static const char* const stringNames[] = { "b = a", "b = a.Left(2)", "b = a.Sub(1, 2)", "a = empty", "b = move(a)", "b = a + b", "a = b", "b = the common string", "read b as a zero terminated buffer", "compare a and b", "a = a.Right(1)", "a = a.Insert(1, b)", "b = a.Remove(0, 1)" };
template<typename T> void strings(Ctx& c, int threads, int length, int kinds, int preemptions)
{
	typedef ObjectString<T> S; typedef std::basic_string<T> M;
	auto prog = choosePrograms(c, threads, length, kinds); if (!canonical(prog)) return;
	bool keep = c.flip(), part = c.flip(); logPrograms(c, prog, stringNames); c.log("the creating thread %s its string, which is %s", keep ? "keeps" : "drops", part ? "a part of another" : "whole");
	{
		static const T text[] = { 'x', 'a', 'b', 'c', 'd', 'y', 0 }; M m0 = part ? M(text + 1, 4) : M(text, 6);
		S common = part ? S(text).Sub(1, 4) : S(text); S h[4]; for (int t = 0; t < threads; t++) h[t] = common; if (!keep) common = S();
		auto same = [](const S& s, const M& m) { if (s.Length() != (vint)m.size()) return false; for (size_t i = 0; i < m.size(); i++) if (s[i] != m[i]) return false; return true; };
		std::vector<std::function<void()>> bodies;
		for (int t = 0; t < threads; t++) bodies.push_back([&, t]
		{
			S a(std::move(h[t])), b; M ma = m0, mb;
			for (int op : prog[t])
			{
				switch (op)
				{
				case 0: b = a; mb = ma; break;
				case 1: if (ma.size() >= 2) { b = a.Left(2); mb = ma.substr(0, 2); } break;
				case 2: if (ma.size() >= 3) { b = a.Sub(1, 2); mb = ma.substr(1, 2); } break;
				case 3: a = S(); ma.clear(); break;
				case 4: b = std::move(a); mb = ma; ma.clear(); break;
				case 5: b = a + b; mb = ma + mb; break;
				case 6: a = b; ma = mb; break;
				case 7: if (keep) { const S& src = common; b = src; mb = m0; } break;
				case 8: { const T* p = b.Buffer(); size_t n = 0; while (p[n]) n++; MC_CHECK(n == mb.size() && M(p, n) == mb, "thread %d: the buffer has another content", sched::self()); break; }
				case 9: MC_CHECK((a == b) == (ma == mb) && (a < b) == (ma < mb), "thread %d: comparison", sched::self()); break;
				case 10: if (ma.size() >= 1) { a = a.Right(1); ma = ma.substr(ma.size() - 1); } break;
				case 11: if (ma.size() >= 1) { a = a.Insert(1, b); ma.insert(1, mb); } break;
				case 12: if (ma.size() >= 1) { b = a.Remove(0, 1); mb = ma.substr(1); } break;
				}
				MC_CHECK(same(a, ma) && same(b, mb), "thread %d: a string has another content", sched::self());
			}
		});
		sched::run(c, std::move(bodies), preemptions, hashPrograms(prog, keep * 2 + part));
		if (keep) MC_CHECK(same(common, m0), "the common string has another content");
	}
}
MC_SCENARIO(string_two_threads, 64, 6) { strings<wchar_t>(c, 2, c.bound(2, 3), 13, c.bound(4, 3)); }
MC_SCENARIO(string_two_threads_long, 64, 6) { strings<wchar_t>(c, 2, c.bound(3, 4), c.bound(6, 5), 2); }
MC_SCENARIO(string_three_threads, 64, 6) { strings<wchar_t>(c, 3, c.bound(1, 2), 13, c.bound(3, 2)); }
MC_SCENARIO(string_char, 64, 6) { strings<char>(c, 2, c.bound(1, 2), 13, -1); }
MC_SCENARIO(string_u8, 64, 6) { strings<char8_t>(c, 2, c.bound(1, 2), 13, -1); }
MC_SCENARIO(string_u16, 64, 6) { strings<char16_t>(c, 2, c.bound(1, 2), 13, -1); }
MC_SCENARIO(string_u32, 64, 6) { strings<char32_t>(c, 2, c.bound(1, 2), 13, -1); }

// ---- function objects ------------------------------------------------------------------------------------------------
static const char* const funcNames[] = { "b = a", "b = move(a)", "a = empty", "call a", "a = b", "b = the common one", "a temporary copy of a is called", "wrap a in another signature and call it" };
static int plainFunction(int x) { return x + 9; }
static void functions(Ctx& c, int threads, int length, int preemptions)
{
	typedef Func<int(int)> F; auto prog = choosePrograms(c, threads, length, 8); if (!canonical(prog)) return;
	bool keep = c.flip(); int kind = c.choose(3); logPrograms(c, prog, funcNames); c.log("the creating thread %s its function, kind %d", keep ? "keeps" : "drops", kind);
	struct Callable { int k; Callable(int _k) :k(_k) { mc::Registry::add(this, "callable"); } Callable(const Callable& o) :k(o.k) { mc::Registry::use(&o, "copy of the callable"); mc::Registry::add(this, "callable"); } ~Callable() { mc::Registry::remove(this, "callable"); k = -1; } int operator()(int x)const { mc::Registry::use(this, "call"); return x + k; } };
	struct Owner { int k = 9; int method(int x) { return x + k; } };
	{
		Owner owner; F common = kind == 0 ? F(Callable(9)) : kind == 1 ? F(&plainFunction) : F(&owner, &Owner::method); F h[4]; for (int t = 0; t < threads; t++) h[t] = common; if (!keep) common = F();
		std::vector<std::function<void()>> bodies;
		for (int t = 0; t < threads; t++) bodies.push_back([&, t]
		{
			F a(std::move(h[t])), b; bool ma = true, mb = false;
			for (int op : prog[t])
			{
				switch (op)
				{
				case 0: b = a; mb = ma; break;
				case 1: b = std::move(a); mb = ma; a = F(); ma = false; break;
				case 2: a = F(); ma = false; break;
				case 3: if (a) MC_CHECK(a(t) == t + 9, "thread %d: the call gives something else", sched::self()); break;
				case 4: a = b; ma = mb; break;
				case 5: if (keep) { const F& src = common; b = src; mb = true; } break;
				case 6: { F x(a); if (x) MC_CHECK(x(1) == 10, "thread %d: the call of a copy gives something else", sched::self()); break; }
				case 7: { if (!a) break; Func<long(int)> w(a); MC_CHECK(w(2) == 11, "thread %d: the wrapped call gives something else", sched::self()); break; }
				}
				MC_CHECK((bool)a == ma && (bool)b == mb, "thread %d: empty or full by mistake", sched::self());
			}
		});
		sched::run(c, std::move(bodies), preemptions, hashPrograms(prog, keep * 4 + kind));
		if (keep) MC_CHECK(common(3) == 12, "the common function gives something else");
	}
	MC_CHECK(mc::Registry::live() == 0, "the callable was not released");
}
MC_SCENARIO(func_two_threads, 64, 6) { functions(c, 2, c.bound(2, 3), c.bound(4, 3)); }
MC_SCENARIO(func_three_threads, 64, 6) { functions(c, 3, 1, c.bound(2, -1)); }
