// P02: handles to externally counted objects (Release called exactly once, when the last handle goes).
#include <mc.h>
#include <Primitives/Pointer.h>
using namespace vl;
using mc::Ctx;

namespace
{
	const int MaxObjs = 3;
	struct Res;
	static Res* res[MaxObjs];
	static int released[MaxObjs];
	struct Res
	{
		int slot; int payload; ComPtr<Res> next;
		Res(int s) :slot(s), payload(500 + s) { mc::Registry::add(this, "resource"); }
		~Res() { mc::Registry::remove(this, "resource destruction"); payload = -1; }
		void Release() { mc::Registry::use(this, "release of"); released[slot]++; res[slot] = nullptr; delete this; }
	};
	struct Sys
	{
		Ctx& c; int H;
		ComPtr<Res> h[3];
		int m[3] = { -1,-1,-1 }; bool alive[MaxObjs] = {}; int next[MaxObjs] = { -1,-1,-1 }; int count[MaxObjs] = {};
		Sys(Ctx& _c, int _H) :c(_c), H(_H) { for (int i = 0; i < MaxObjs; i++) { res[i] = nullptr; released[i] = 0; } }
		void inc(int o) { if (o >= 0) count[o]++; }
		void dec(int o) { if (o >= 0 && --count[o] == 0) { alive[o] = false; int n = next[o]; next[o] = -1; dec(n); } }
		void set(int& loc, int o) { inc(o); int old = loc; loc = o; dec(old); }
		uint64_t hash() { uint64_t r = H; for (int x : m) r = mc::mix(r, x + 1); for (int i = 0; i < MaxObjs; i++) r = mc::mix(r, alive[i] ? next[i] + 2 : 0); return r; }
		int fresh() { for (int i = 0; i < MaxObjs; i++) if (!alive[i]) return i; return -1; }
		Res* make(int s) { released[s] = 0; alive[s] = true; next[s] = -1; count[s] = 0; return res[s] = new Res(s); }
		void check(const char* when)
		{
			c.step();
			for (int i = 0; i < MaxObjs; i++)
			{
				MC_CHECK(!alive[i] || (res[i] && released[i] == 0), "%s: resource %d released while %d handle(s) refer to it", when, i, count[i]);
				MC_CHECK(alive[i] || !res[i], "%s: resource %d not released although no handle refers to it", when, i);
				MC_CHECK(released[i] <= 1, "%s: resource %d released %d times", when, i, released[i]);
			}
			for (int i = 0; i < H; i++)
			{
				Res* e = m[i] < 0 ? nullptr : res[m[i]];
				MC_CHECK(h[i].Obj() == e && (bool)h[i] == (e != nullptr) && h[i].operator->() == e, "%s: handle %d refers to the wrong resource", when, i);
				if (e) MC_CHECK(h[i]->payload == 500 + m[i], "%s: payload", when);
				for (int j = 0; j < H; j++)
				{
					Res* f = m[j] < 0 ? nullptr : res[m[j]];
					MC_CHECK((h[i] == h[j]) == (e == f) && (h[i] <=> h[j]) == (e <=> f) && (h[i] == (const Res*)f) == (e == f) && (h[i] <=> (const Res*)f) == (e <=> f), "%s: comparison of handles %d and %d", when, i, j);
				}
			}
			for (int i = 0; i < MaxObjs; i++) if (alive[i]) MC_CHECK(res[i]->next.Obj() == (next[i] < 0 ? nullptr : res[next[i]]), "%s: inner handle of %d", when, i);
		}
		bool op()
		{
			int i = c.choose(H);
			switch (c.choose(13))
			{
			case 0: { int s = fresh(); if (s < 0) return false; c.log("h%d = resource %d (plain pointer)", i, s); Res* r = make(s); h[i] = r; set(m[i], s); break; }
			case 1: { int s = fresh(); if (s < 0) return false; c.log("h%d = ComPtr(resource %d)", i, s); Res* r = make(s); h[i] = ComPtr<Res>(r); set(m[i], s); break; }
			case 2: { int j = c.choose(H); c.log("h%d = h%d", i, j); h[i] = h[j]; set(m[i], m[j]); break; }
			case 3: { int j = c.choose(H); c.log("h%d = move(h%d)", i, j); h[i] = std::move(h[j]); if (i != j) { int o = m[j]; inc(o); set(m[j], -1); set(m[i], o); dec(o); } break; }
			case 4: c.log("h%d = nullptr", i); h[i] = nullptr; set(m[i], -1); break;
			case 5: c.log("h%d = (T*)nullptr", i); h[i] = (Res*)nullptr; set(m[i], -1); break;
			case 6: { int j = c.choose(H); if (m[j] < 0) return false; c.log("h%d = h%d->next", i, j); h[i] = h[j]->next; set(m[i], next[m[j]]); break; }
			case 7: { int j = c.choose(H); if (m[j] < 0) return false; c.log("h%d = move(h%d->next)", i, j); int s = m[j], o = next[s]; h[i] = std::move(h[j]->next); inc(o); set(next[s], -1); set(m[i], o); dec(o); break; }
			case 8: { int j = c.choose(H); if (m[i] < 0) return false; c.log("h%d->next = h%d", i, j); h[i]->next = h[j]; int t = m[j]; inc(t); set(next[m[i]], t); dec(t); break; }
			case 9: { int j = c.choose(H); if (m[i] < 0) return false; c.log("h%d->next = move(h%d)", i, j); int d = m[i], o = m[j]; h[i]->next = std::move(h[j]); inc(o); set(m[j], -1); if (alive[d]) set(next[d], o); dec(o); break; }
			case 10: { int j = c.choose(H); c.log("swap(h%d,h%d)", i, j); std::swap(h[i], h[j]); std::swap(m[i], m[j]); break; }
			case 11:
			{
				c.log("temporaries of h%d", i);
				ComPtr<Res> a(h[i]), b(a), d(std::move(a)); MC_CHECK(!a && !a.Obj() && b == h[i] && d == h[i], "temporaries");
				b = d; d = nullptr; a = std::move(b); MC_CHECK(!d && !b && a == h[i], "temporaries after moves");
				ComPtr<Res> n(nullptr), n2((Res*)nullptr), n3; MC_CHECK(!n && !n2 && !n3 && n == n2 && n3 == nullptr, "empty handles");
				n = a; a = nullptr; MC_CHECK(n == h[i], "assigning to an empty handle");
				break;
			}
			case 12:
			{
				if (m[i] < 0 || next[m[i]] != m[i]) return false;
				c.log("self cycle of h%d broken from inside", i);
				Res* r = h[i].Obj(); int o = m[i]; h[i] = nullptr; set(m[i], -1); check("outer handle dropped");
				r->next = nullptr; set(next[o], -1); break;
			}
			}
			return true;
		}
		void teardown()
		{
			for (int i = 0; i < MaxObjs; i++) if (alive[i] && next[i] >= 0)
			{
				ComPtr<Res> keep; keep = std::move(res[i]->next); int o = next[i]; next[i] = -1; keep = nullptr; dec(o);
				check("teardown: cutting an inner handle");
			}
			for (int i = 0; i < H; i++) { h[i] = nullptr; set(m[i], -1); check("teardown: dropping a handle"); }
		}
	};
	static void explore(Ctx& c, int H, int depth, bool prune)
	{
		Sys s(c, H);
		for (int d = 0; d < depth; d++)
		{
			if (prune ? !c.visit(s.hash(), depth - d) : (c.state(s.hash()), false)) break;
			if (!s.op()) break;
			s.check("after the operation");
		}
		s.teardown();
		MC_CHECK(mc::Registry::live() == 0, "%ld resource(s) never released", mc::Registry::live());
	}
}
MC_SCENARIO(histories, 64, 4) { explore(c, 2, c.bound(14, 24), true); }
MC_SCENARIO(histories_wide, 64, 4) { explore(c, 3, c.bound(8, 12), true); }
MC_SCENARIO(histories_plain, 64, 4) { explore(c, 2, c.bound(5, 6), false); }

MC_SCENARIO(many_handles, 16, 1)
{
	int n = 1 + c.choose(c.bound(300, 1200)); int order = c.choose(3), how = c.choose(3);
	for (int i = 0; i < MaxObjs; i++) { res[i] = nullptr; released[i] = 0; }
	c.log("%d handles, order %d, release %d", n, order, how);
	ComPtr<Res>* h = new ComPtr<Res>[n];
	h[0] = res[0] = new Res(0);
	for (int i = 1; i < n; i++) { h[i] = h[i - 1]; c.step(); }
	for (int k = 0; k < n; k++)
	{
		int i = order == 0 ? k : order == 1 ? n - 1 - k : (k % 2 ? n - 1 - k / 2 : k / 2);
		MC_CHECK(released[0] == 0 && h[i]->payload == 500, "resource released with %d handles left", n - k);
		if (how == 0) h[i] = nullptr; else if (how == 1) { ComPtr<Res> e; h[i] = e; } else { ComPtr<Res> t(std::move(h[i])); }
		c.step();
	}
	MC_CHECK(released[0] == 1, "resource released %d times after the last of %d handles is gone", released[0], n);
	c.state(n * 16 + order * 4 + how);
	delete[] h;
}

// the object may be handed over several times, each time with a reference of its own: every handing over is released
// exactly once, whoever holds the other references
namespace
{
	struct Counted { int refs = 0; int releases = 0; void Release() { MC_CHECK(refs > 0, "released more often than references were handed over"); refs--; releases++; } };
	static void adopted(Ctx& c, int H, int depth)
	{
		Counted obj[2]; int given[2] = {}; int group[3] = { -1,-1,-1 }, which[64], share[64], groups = 0;
		{
			ComPtr<Counted> h[3]; auto drop = [&](int i) { if (group[i] >= 0) { share[group[i]]--; group[i] = -1; } }; auto join = [&](int i, int g) { if (g >= 0) share[g]++; drop(i); group[i] = g; };
			auto check = [&]
			{
				c.step(); uint64_t s = 1;
				for (int k = 0; k < 2; k++) { int live = 0; for (int g = 0; g < groups; g++) live += which[g] == k && share[g] > 0; MC_CHECK(obj[k].refs == live, "object %d has %d references, %d are still held", k, obj[k].refs, live); }
				for (int i = 0; i < H; i++) { Counted* e = group[i] < 0 ? nullptr : &obj[which[group[i]]]; MC_CHECK(h[i].Obj() == e && (bool)h[i] == (e != nullptr), "handle %d refers to the wrong object", i); for (int j = 0; j < i; j++) { MC_CHECK((h[i] == h[j]) == (h[i].Obj() == h[j].Obj()), "handles of one object compare by object"); s = mc::mix(s, group[i] == group[j]); } s = mc::mix(s, e ? e - obj + 1 : 0); }
				c.state(s);
			};
			for (int d = 0; d < depth; d++)
			{
				int i = c.choose(H);
				switch (c.choose(6))
				{
				case 0: { int k = c.choose(2); c.log("h%d = object %d (plain pointer)", i, k); obj[k].refs++; given[k]++; which[groups] = k; share[groups] = 0; h[i] = &obj[k]; join(i, groups++); break; }
				case 1: { int k = c.choose(2); c.log("h%d = ComPtr(object %d)", i, k); obj[k].refs++; given[k]++; which[groups] = k; share[groups] = 0; h[i] = ComPtr<Counted>(&obj[k]); join(i, groups++); break; }
				case 2: { int j = c.choose(H); c.log("h%d = h%d", i, j); h[i] = h[j]; join(i, group[j]); break; }
				case 3: { int j = c.choose(H); c.log("h%d = move(h%d)", i, j); h[i] = std::move(h[j]); if (i != j) { join(i, group[j]); drop(j); } break; }
				case 4: c.log("h%d = nullptr", i); h[i] = nullptr; drop(i); break;
				case 5: { if (group[i] < 0) return; int k = which[group[i]]; c.log("h%d = the object it refers to, again", i); obj[k].refs++; given[k]++; which[groups] = k; share[groups] = 0; h[i] = h[i].Obj(); join(i, groups++); break; }
				}
				check();
			}
		}
		for (int k = 0; k < 2; k++) MC_CHECK(obj[k].refs == 0 && obj[k].releases == given[k], "object %d: %d references given, %d released", k, given[k], obj[k].releases);
	}
}
MC_SCENARIO(handed_over_again, 64, 4) { adopted(c, 2, c.bound(5, 7)); }
MC_SCENARIO(handed_over_again_wide, 64, 4) { adopted(c, 3, c.bound(4, 6)); }
