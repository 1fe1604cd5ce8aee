// P01: shared pointer handles. Reference model: explicit reference counts over a small object graph.
#include <mc.h>
#include <Primitives/Pointer.h>
#include <utility>
using namespace vl;
using mc::Ctx;

// ------------------------------------------------------------------------------------------------------------
// Scenario family 1: object graphs. Every object owns one handle, so that a handle may live inside the object
// that is released by the very assignment reading or writing it.
// ------------------------------------------------------------------------------------------------------------
namespace graph
{
	const int MaxObjs = 3;
	struct Node;
	static Node* nodes[MaxObjs];
	static int destroyed[MaxObjs];
	struct Node
	{
		int slot;
		int payload;
		Ptr<Node> next;
		Node(int s) :slot(s), payload(1000 + s) { mc::Registry::add(this, "object construction"); }
		virtual ~Node()
		{
			mc::Registry::remove(this, "object destruction");
			destroyed[slot]++; payload = -1; nodes[slot] = nullptr;
		}
	};

	struct Model
	{
		int H;
		int h[4];                 // handle -> object or -1
		bool alive[MaxObjs];
		int next[MaxObjs];
		int count[MaxObjs];
		void inc(int o) { if (o >= 0) count[o]++; }
		void dec(int o)
		{
			if (o < 0) return;
			if (--count[o] == 0) { alive[o] = false; int n = next[o]; next[o] = -1; dec(n); }
		}
		// replace the target of a location; the new value is secured before the old one is released
		void set(int& loc, int o) { inc(o); int old = loc; loc = o; dec(old); }
		uint64_t hash()
		{
			// canonical numbering of objects in order of discovery, so that renamed graphs coincide
			int canon[MaxObjs]; int n = 0; for (int& x : canon) x = -1;
			uint64_t r = H;
			auto id = [&](int o) { if (o < 0) return 0; if (canon[o] < 0) canon[o] = n++; return canon[o] + 1; };
			for (int i = 0; i < H; i++) r = mc::mix(r, id(h[i]));
			for (int i = 0; i < MaxObjs; i++) if (alive[i]) { id(i); }
			for (int k = 0; k < n; k++) for (int i = 0; i < MaxObjs; i++) if (canon[i] == k) { r = mc::mix(r, id(next[i])); r = mc::mix(r, count[i]); }
			return r;
		}
	};

	struct Sys
	{
		Ptr<Node> h[4];
		Model m;
		Ctx& c;
		Sys(Ctx& _c, int H) :c(_c)
		{
			m.H = H;
			for (int i = 0; i < 4; i++) m.h[i] = -1;
			for (int i = 0; i < MaxObjs; i++) { m.alive[i] = false; m.next[i] = -1; m.count[i] = 0; nodes[i] = nullptr; destroyed[i] = 0; }
		}
		~Sys() { }
		void check(const char* when)
		{
			c.step();
			for (int i = 0; i < MaxObjs; i++)
			{
				if (m.alive[i]) MC_CHECK(nodes[i] != nullptr && destroyed[i] == 0, "%s: object %d was destroyed while %d handle(s) refer to it", when, i, m.count[i]);
				else MC_CHECK(nodes[i] == nullptr, "%s: object %d is still alive although no handle refers to it", when, i);
				MC_CHECK(destroyed[i] <= 1, "%s: object %d destroyed %d times", when, i, destroyed[i]);
			}
			for (int i = 0; i < m.H; i++)
			{
				Node* e = m.h[i] < 0 ? nullptr : nodes[m.h[i]];
				MC_CHECK(h[i].Obj() == e, "%s: handle %d refers to the wrong object", when, i);
				MC_CHECK((bool)h[i] == (e != nullptr), "%s: handle %d truth value", when, i);
				MC_CHECK(h[i].operator->() == e, "%s: handle %d arrow", when, i);
				if (e) MC_CHECK(h[i]->payload == 1000 + m.h[i], "%s: handle %d payload", when, i);
				for (int j = 0; j < m.H; j++)
				{
					Node* e2 = m.h[j] < 0 ? nullptr : nodes[m.h[j]];
					MC_CHECK((h[i] == h[j]) == (e == e2) && (h[i] != h[j]) == (e != e2), "%s: handles %d and %d equality", when, i, j);
					MC_CHECK((h[i] <=> h[j]) == (e <=> e2) && (h[i] < h[j]) == (e < e2), "%s: handles %d and %d ordering", when, i, j);
					MC_CHECK((h[i] == e2) == (e == e2) && (h[i] <=> (const Node*)e2) == (e <=> e2), "%s: handle %d against raw pointer", when, i);
				}
			}
			for (int i = 0; i < MaxObjs; i++) if (m.alive[i])
				MC_CHECK(nodes[i]->next.Obj() == (m.next[i] < 0 ? nullptr : nodes[m.next[i]]), "%s: handle inside object %d refers to the wrong object", when, i);
		}
		int fresh() { for (int i = 0; i < MaxObjs; i++) if (!m.alive[i]) return i; return -1; }
		Node* make(int s) { destroyed[s] = 0; nodes[s] = new Node(s); return nodes[s]; }
		void created(int s) { m.alive[s] = true; m.next[s] = -1; m.count[s] = 0; }

		// one operation; returns false when the chosen one does not apply in this state
		bool op()
		{
			int i = c.choose(m.H);
			int k = c.choose(13);
			switch (k)
			{
			case 0: // a new object
			{
				int s = fresh(); if (s < 0) return false;
				c.log("h%d = Ptr(new object %d)", i, s);
				auto p = Ptr(make(s)); created(s); m.inc(s);
				h[i] = std::move(p); int old = m.h[i]; m.h[i] = s; m.dec(old);
				break;
			}
			case 1: { int j = c.choose(m.H); c.log("h%d = h%d", i, j); h[i] = h[j]; m.set(m.h[i], m.h[j]); break; }
			case 2:
			{
				int j = c.choose(m.H); c.log("h%d = move(h%d)", i, j);
				h[i] = std::move(h[j]);
				if (i != j) { int o = m.h[j]; m.inc(o); m.set(m.h[j], -1); m.set(m.h[i], o); m.dec(o); }
				break;
			}
			case 3: c.log("h%d = nullptr", i); h[i] = nullptr; m.set(m.h[i], -1); break;
			case 4: // read a handle stored in a possibly dying object
			{
				int j = c.choose(m.H); if (m.h[j] < 0) return false;
				c.log("h%d = h%d->next", i, j); h[i] = h[j]->next; m.set(m.h[i], m.next[m.h[j]]); break;
			}
			case 5:
			{
				int j = c.choose(m.H); if (m.h[j] < 0) return false;
				c.log("h%d = move(h%d->next)", i, j);
				int src = m.h[j]; int o = m.next[src];
				h[i] = std::move(h[j]->next);
				m.inc(o); m.set(m.next[src], -1); m.set(m.h[i], o); m.dec(o);
				break;
			}
			case 6:
			{
				int j = c.choose(m.H); if (m.h[i] < 0) return false;
				c.log("h%d->next = h%d", i, j); h[i]->next = h[j]; int t = m.h[j]; m.inc(t); m.set(m.next[m.h[i]], t); m.dec(t); break;
			}
			case 7:
			{
				int j = c.choose(m.H); if (m.h[i] < 0) return false;
				c.log("h%d->next = move(h%d)", i, j);
				int d = m.h[i]; int o = m.h[j];
				h[i]->next = std::move(h[j]);
				m.inc(o); m.set(m.h[j], -1); if (m.alive[d]) { m.set(m.next[d], o); } m.dec(o);
				break;
			}
			case 8:
			{
				if (m.h[i] < 0) return false;
				c.log("h%d->next = nullptr", i); h[i]->next = nullptr;
				m.set(m.next[m.h[i]], -1);
				break;
			}
			case 9: // unlink
			{
				if (m.h[i] < 0 || m.next[m.h[i]] < 0) return false;
				c.log("h%d->next = h%d->next->next", i, i);
				h[i]->next = h[i]->next->next;
				m.set(m.next[m.h[i]], m.next[m.next[m.h[i]]]);
				break;
			}
			case 10:
			{
				int j = c.choose(m.H); c.log("swap(h%d, h%d)", i, j); std::swap(h[i], h[j]); std::swap(m.h[i], m.h[j]); break;
			}
			case 11: // copies and moves through temporaries
			{
				c.log("temporary copies of h%d", i);
				Ptr<Node> a(h[i]); Ptr<Node> b(a); Ptr<Node> d(std::move(a));
				MC_CHECK(!a && a.Obj() == nullptr && a == nullptr, "a moved-from handle is not empty");
				MC_CHECK(b.Obj() == h[i].Obj() && d.Obj() == h[i].Obj(), "a copied handle refers to another object");
				b = d; d = nullptr; a = std::move(b);
				MC_CHECK(!d && !b && a.Obj() == h[i].Obj(), "temporaries after moves");
				break;
			}
			case 12: // break a cycle from the inside: the handle lives in the object it keeps alive
			{
				if (m.h[i] < 0 || m.next[m.h[i]] != m.h[i]) return false;
				c.log("n = h%d.Obj(); h%d = nullptr; n->next = nullptr (self cycle)", i, i);
				Node* n = h[i].Obj(); int o = m.h[i];
				h[i] = nullptr; m.set(m.h[i], -1);
				check("after dropping the outer handle");
				n->next = nullptr; m.set(m.next[o], -1);
				break;
			}
			}
			return true;
		}
		void teardown()
		{
			// cut cycles, then drop every handle one by one, checking after each
			for (int i = 0; i < MaxObjs; i++) if (m.alive[i] && m.next[i] >= 0)
			{
				Ptr<Node> keep; 
				// take the inner handle out first so that the model and the code agree on the order
				keep = std::move(nodes[i]->next);
				int o = m.next[i]; m.next[i] = -1;
				keep = nullptr; m.dec(o);
				check("teardown: cutting an inner handle");
			}
			for (int i = 0; i < m.H; i++) { h[i] = nullptr; m.set(m.h[i], -1); check("teardown: dropping a handle"); }
			for (int i = 0; i < MaxObjs; i++) MC_CHECK(!m.alive[i] || m.count[i] > 0, "model");
		}
	};

	static void explore(Ctx& c, int H, int depth, bool prune)
	{
		{
			Sys s(c, H);
			for (int d = 0; d < depth; d++)
			{
				if (prune ? !c.visit(s.m.hash(), depth - d) : (c.state(s.m.hash()), false)) break;
				if (!s.op()) break;
				s.check("after the operation");
			}
			s.teardown();
		}
		MC_CHECK(mc::Registry::live() == 0, "%ld object(s) never destroyed", mc::Registry::live());
	}
}

MC_SCENARIO(graph_histories, 64, 4) { graph::explore(c, 2, c.bound(14, 24), true); }
MC_SCENARIO(graph_histories_wide, 64, 4) { graph::explore(c, 3, c.bound(8, 12), true); }
MC_SCENARIO(graph_histories_plain, 64, 4) { graph::explore(c, 2, c.bound(5, 6), false); }

// long chains: releasing the head of a chain of n objects releases all of them, and walking with h = h->next is safe
MC_SCENARIO(chain_walk, 8, 1)
{
	int n = 1 + c.choose(40);
	int mode = c.choose(4);
	int walk = c.choose(n + 1);
	struct Link { Ptr<Link> next; int id; Link(int i) :id(i) { mc::Registry::add(this, "link"); } ~Link() { mc::Registry::remove(this, "link destruction"); } };
	c.log("chain of %d, walk %d, mode %d", n, walk, mode);
	{
		Ptr<Link> head; for (int i = n - 1; i >= 0; i--) { auto x = Ptr(new Link(i)); x->next = head; head = x; }
		Ptr<Link> keep; if (mode & 1) keep = head;
		for (int i = 0; i < walk; i++)
		{
			MC_CHECK(head && head->id == i, "walk: element %d", i);
			if (mode & 2) head = std::move(head->next); else head = head->next;
			c.step();
			long expect = (mode == 3) ? (n) : (mode & 1) ? n : n - i - 1;
			MC_CHECK(mc::Registry::live() == expect, "walk: %ld objects alive after %d steps, expected %ld", mc::Registry::live(), i + 1, expect);
			if (mode == 3) { MC_CHECK(keep, "keep"); keep = head; break; }
			c.state(mc::mix(mc::mix(n, i), mode));
		}
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld objects left", mc::Registry::live());
}

// ------------------------------------------------------------------------------------------------------------
// Scenario family 2: conversions and casts between handles of related types
// ------------------------------------------------------------------------------------------------------------
namespace casts
{
	struct A { int a = 11; virtual ~A() { mc::Registry::remove(this, "A"); } A() { mc::Registry::add(this, "A"); } };
	struct B { int b = 22; virtual ~B() { mc::Registry::remove(this, "B"); } B() { mc::Registry::add(this, "B"); } };
	struct D : A, B { int d = 33; mc::Tracked t = 5; };
	// no virtual destructor: only the destructor of the original type is correct
	struct Plain { int p = 44; };
	struct PlainPad { long pad = 7; };
	struct PlainD : PlainPad, Plain { mc::Tracked t = 6; };

	const int MaxObjs = 2;
	// kinds: 0 A, 1 B, 2 D
	struct Obj { int kind; bool alive; int count; void* asA; void* asB; void* asD; };
	struct Sys
	{
		Ctx& c;
		Ptr<A> a[2]; Ptr<B> b; Ptr<D> d;
		int m[4]; // a0 a1 b d
		Obj o[MaxObjs];
		Sys(Ctx& _c) :c(_c) { for (int& x : m) x = -1; for (auto& x : o) x = { 0,false,0,nullptr,nullptr,nullptr }; }
		void inc(int x) { if (x >= 0) o[x].count++; }
		void dec(int x) { if (x >= 0 && --o[x].count == 0) o[x].alive = false; }
		void set(int loc, int x) { inc(x); int old = m[loc]; m[loc] = x; dec(old); }
		long liveParts() { long n = 0; for (auto& x : o) if (x.alive) n += x.kind == 2 ? 3 : 1; return n; }
		uint64_t hash() { uint64_t r = 3; for (int x : m) r = mc::mix(r, x + 1); for (auto& x : o) r = mc::mix(r, x.alive ? x.kind + 1 : 0); return r; }
		void check(long extra = 0)
		{
			c.step();
			MC_CHECK(mc::Registry::live() == liveParts() + extra, "the live objects differ from the ones referred to (%ld live parts, %ld expected)", mc::Registry::live(), liveParts() + extra);
			for (int i = 0; i < 2; i++)
			{
				MC_CHECK((void*)a[i].Obj() == (m[i] < 0 ? nullptr : o[m[i]].asA), "handle a%d refers to the wrong object", i);
				if (a[i]) MC_CHECK(a[i]->a == 11, "payload a");
			}
			MC_CHECK((void*)b.Obj() == (m[2] < 0 ? nullptr : o[m[2]].asB), "handle b refers to the wrong object"); if (b) MC_CHECK(b->b == 22, "payload b");
			MC_CHECK((void*)d.Obj() == (m[3] < 0 ? nullptr : o[m[3]].asD), "handle d refers to the wrong object"); if (d) MC_CHECK(d->d == 33 && d->t.v == 5, "payload d");
		}
		int fresh() { for (int i = 0; i < MaxObjs; i++) if (!o[i].alive) return i; return -1; }
		int castA(int x) { return x >= 0 && o[x].asA ? x : -1; }
		int castB(int x) { return x >= 0 && o[x].asB ? x : -1; }
		int castD(int x) { return x >= 0 && o[x].asD ? x : -1; }
		bool op()
		{
			switch (c.choose(19))
			{
			case 0: { int s = fresh(); if (s < 0) return false; c.log("a0 = new A"); auto p = new A; o[s] = { 0,true,0,p,nullptr,nullptr }; a[0] = Ptr(p); set(0, s); break; }
			case 1: { int s = fresh(); if (s < 0) return false; c.log("b = new B"); auto p = new B; o[s] = { 1,true,0,nullptr,p,nullptr }; b = Ptr(p); set(2, s); break; }
			case 2: { int s = fresh(); if (s < 0) return false; c.log("d = new D"); auto p = new D; o[s] = { 2,true,0,(A*)p,(B*)p,p }; d = Ptr(p); set(3, s); break; }
			case 3: { int s = fresh(); if (s < 0) return false; c.log("b = Ptr<D>(new D) converted"); auto p = new D; o[s] = { 2,true,0,(A*)p,(B*)p,p }; b = Ptr<D>(p); set(2, s); break; }
			case 4: { int s = fresh(); if (s < 0) return false; c.log("a0 = Ptr<A>(new D)"); auto p = new D; o[s] = { 2,true,0,(A*)p,(B*)p,p }; a[0] = Ptr<A>(p); set(0, s); break; }
			case 5: c.log("a0 = d"); a[0] = d; set(0, m[3]); break;
			case 6: c.log("b = d"); b = d; set(2, m[3]); break;
			case 7: { c.log("a1 = move(d)"); a[1] = std::move(d); int x = m[3]; inc(x); set(3, -1); set(1, x); dec(x); break; }
			case 8: { c.log("b = move(d)"); b = std::move(d); int x = m[3]; inc(x); set(3, -1); set(2, x); dec(x); break; }
			case 9: c.log("d = a0.Cast<D>()"); d = a[0].Cast<D>(); set(3, castD(m[0])); break;
			case 10: c.log("d = b.Cast<D>()"); d = b.Cast<D>(); set(3, castD(m[2])); break;
			case 11: c.log("b = a1.Cast<B>()"); b = a[1].Cast<B>(); set(2, castB(m[1])); break;
			case 12: c.log("a1 = b.Cast<A>()"); a[1] = b.Cast<A>(); set(1, castA(m[2])); break;
			case 13: c.log("a1 = a0"); a[1] = a[0]; set(1, m[0]); break;
			case 14: c.log("a0 = nullptr"); a[0] = nullptr; set(0, -1); break;
			case 15: c.log("a1 = nullptr"); a[1] = nullptr; set(1, -1); break;
			case 16: c.log("b = nullptr"); b = nullptr; set(2, -1); break;
			case 17: c.log("d = nullptr"); d = nullptr; set(3, -1); break;
			case 18: // constructions by conversion
			{
				c.log("temporary conversions of d");
				Ptr<A> ta(d); Ptr<B> tb(d); Ptr<D> td(d); Ptr<B> tb2(std::move(td));
				MC_CHECK(!td && ta.Obj() == (A*)d.Obj() && tb.Obj() == (B*)d.Obj() && tb2 == tb, "converted handles");
				Ptr<A> ta2 = tb2.Cast<A>(); MC_CHECK(ta2 == ta, "cross cast");
				Ptr<D> td2 = ta2.Cast<D>(); MC_CHECK(td2 == d, "down cast");
				break;
			}
			}
			return true;
		}
	};
}

MC_SCENARIO(cast_histories, 32, 2)
{
	using namespace casts;
	Sys s(c);
	int depth = c.bound(10, 16);
	for (int i = 0; i < depth; i++)
	{
		if (!c.visit(s.hash(), depth - i)) break;
		if (!s.op()) break;
		s.check();
	}
	for (int k = 0; k < 4; k++)
	{
		if (k < 2) s.a[k] = nullptr; else if (k == 2) s.b = nullptr; else s.d = nullptr;
		s.set(k, -1); s.check();
	}
}

// objects whose base has no virtual destructor and sits at an offset
MC_SCENARIO(original_type_destruction, 4, 2)
{
	using namespace casts;
	int order = c.choose(6); int mv = c.choose(4);
	{
		Ptr<PlainD> d = Ptr(new PlainD);
		Ptr<Plain> p; Ptr<Plain> q;
		c.log("order %d, move %d", order, mv);
		if (mv & 1) p = d; else p = Ptr<Plain>(d);
		if (mv & 2) { Ptr<PlainD> t(d); q = std::move(t); MC_CHECK(!t, "moved-from"); } else q = p;
		MC_CHECK(p->p == 44 && q.Obj() == p.Obj() && p.Obj() == static_cast<Plain*>(d.Obj()), "converted handle refers to the wrong part");
		int seq[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
		for (int k = 0; k < 3; k++)
		{
			c.step(); c.state(order * 100 + mv * 10 + k);
			switch (seq[order][k]) { case 0: d = nullptr; break; case 1: p = nullptr; break; case 2: q = nullptr; break; }
			MC_CHECK(mc::Registry::live() == (k == 2 ? 0 : 1), "object alive state after %d of 3 releases: %ld", k + 1, mc::Registry::live());
		}
	}
}

// several parts of the same type in one object: handles that share the object still refer to, and compare as, their part
namespace parts
{
	struct Base { int id = 0; virtual ~Base() {} };
	struct L : Base { L() { id = 1; } }; struct R : Base { R() { id = 2; } };
	struct Both : L, R { mc::Tracked t{ 9 }; };
	struct Holder { mc::Tracked t{ 8 }; L first; R second; };
}
MC_SCENARIO(parts_of_one_object, 8, 2)
{
	using namespace parts;
	{
		Ptr<Both> o[2] = { Ptr(new Both), Ptr(new Both) };
		std::vector<Ptr<Base>> h; std::vector<Base*> m;
		for (int k = 0; k < 4; k++)
		{
			int w = c.choose(6); Ptr<Both>& x = o[w / 2 % 2];
			c.log("handle %d: %s", k, w == 4 ? "empty" : w == 5 ? "a failed cast" : w % 2 ? "right part" : "left part");
			if (w == 4) { h.push_back(Ptr<Base>()); m.push_back(nullptr); }
			else if (w == 5) { h.push_back(Ptr<Base>(Ptr<L>(x).Cast<R>().Cast<Both>().Cast<R>().Cast<L>())); m.push_back((L*)x.Obj()); }
			else if (w % 2) { h.push_back(Ptr<R>(x)); m.push_back((R*)x.Obj()); }
			else { h.push_back(Ptr<L>(x)); m.push_back((L*)x.Obj()); }
			c.step();
		}
		if (c.flip()) for (auto& x : o) x = nullptr;
		uint64_t s = 1;
		for (size_t i = 0; i < h.size(); i++) for (size_t j = 0; j < h.size(); j++)
		{
			Base *e = m[i], *f = m[j]; s = mc::mix(s, e == f);
			MC_CHECK(h[i].Obj() == e && (bool)h[i] == (e != nullptr) && (!e || h[i]->id == e->id), "handle %zu refers to another part", i);
			MC_CHECK((h[i] == h[j]) == (e == f) && (h[i] != h[j]) == (e != f) && (h[i] <=> h[j]) == (e <=> f), "handles %zu and %zu compare wrongly", i, j);
			MC_CHECK((h[i] == (const Base*)f) == (e == f) && (h[i] <=> (const Base*)f) == (e <=> f), "handle %zu compares wrongly with a plain pointer", i);
		}
		c.state(s);
	}
	MC_CHECK(mc::Registry::live() == 0, "an object was never destroyed");
}

// ------------------------------------------------------------------------------------------------------------
// Scenario family 3: handing an object out of shared ownership
// ------------------------------------------------------------------------------------------------------------
MC_SCENARIO(detach_histories, 16, 3)
{
	struct N { int v; N(int _v) :v(_v) { mc::Registry::add(this, "N"); } ~N() { mc::Registry::remove(this, "N"); v = -1; } };
	mc::expectNoLeak(false); // the separately allocated counter is not reclaimed by a last detach (documented strategy)
	Ptr<N> h[3]; int m[3] = { -1,-1,-1 };   // object index
	N* obj[3] = {}; int count[3] = {}; bool alive[3] = {}; bool raw[3] = {};
	int depth = c.bound(10, 16);
	auto dec = [&](int o) { if (o >= 0 && --count[o] == 0) alive[o] = false; };
	for (int d = 0; d < depth; d++)
	{
		uint64_t hs = 5; for (int x : m) hs = mc::mix(hs, x + 1); for (int i = 0; i < 3; i++) hs = mc::mix(hs, (alive[i] ? 1 : 0) + (raw[i] ? 2 : 0));
		if (!c.visit(hs, depth - d)) break;
		int i = c.choose(3);
		bool applied = true;
		switch (c.choose(6))
		{
		case 0: { int s = -1; for (int k = 0; k < 2; k++) if (!alive[k] && !raw[k]) { s = k; break; } if (s < 0) { applied = false; break; }
			c.log("h%d = new object %d", i, s); obj[s] = new N(s); alive[s] = true; count[s] = 1; int old = m[i]; h[i] = Ptr(obj[s]); m[i] = s; dec(old); break; }
		case 1: { int j = c.choose(3); c.log("h%d = h%d", i, j); h[i] = h[j]; int o = m[j]; if (o >= 0) count[o]++; int old = m[i]; m[i] = o; dec(old); break; }
		case 2: { int j = c.choose(3); if (i == j) { applied = false; break; } c.log("h%d = move(h%d)", i, j); h[i] = std::move(h[j]); int old = m[i]; m[i] = m[j]; m[j] = -1; dec(old); break; }
		case 3: { c.log("h%d = nullptr", i); h[i] = nullptr; int old = m[i]; m[i] = -1; dec(old); break; }
		case 4: { c.log("h%d.Detach()", i); N* r = h[i].Detach(); int o = m[i];
			MC_CHECK(r == (o < 0 ? nullptr : obj[o]), "Detach returned another object");
			m[i] = -1; if (o >= 0 && --count[o] == 0) { raw[o] = true; alive[o] = false; } break; }
		case 5: { int s = -1; for (int k = 0; k < 3; k++) if (raw[k]) { s = k; break; } if (s < 0) { applied = false; break; }
			c.log("h%d = Ptr(detached object %d)", i, s); h[i] = Ptr(obj[s]); raw[s] = false; alive[s] = true; count[s] = 1; int old = m[i]; m[i] = s; dec(old); break; }
		}
		if (!applied) break;
		c.step();
		for (int k = 0; k < 3; k++)
		{
			if (obj[k]) MC_CHECK(mc::Registry::alive(obj[k]) == (alive[k] || raw[k]) || (!alive[k] && !raw[k]), "object %d is %s", k, mc::Registry::alive(obj[k]) ? "alive" : "dead");
			MC_CHECK(h[k].Obj() == (m[k] < 0 ? nullptr : obj[m[k]]), "handle %d does not refer to what it should", k);
			if (m[k] >= 0) MC_CHECK(h[k]->v == m[k], "handle %d payload", k);
		}
		long expect = 0; for (int k = 0; k < 3; k++) expect += alive[k] || raw[k];
		MC_CHECK(mc::Registry::live() == expect, "%ld objects alive, expected %ld", mc::Registry::live(), expect);
	}
	for (int k = 0; k < 3; k++) { h[k] = nullptr; int o = m[k]; m[k] = -1; dec(o); }
	for (int k = 0; k < 3; k++) if (raw[k]) { MC_CHECK(mc::Registry::alive(obj[k]), "detached object %d was destroyed", k); delete obj[k]; }
	MC_CHECK(mc::Registry::live() == 0, "%ld objects left", mc::Registry::live());
}

// ------------------------------------------------------------------------------------------------------------
// Scenario family 4: a user supplied counting strategy with the counter inside the object (the documented
// extension point): handles may be created from the plain pointer any number of times
// ------------------------------------------------------------------------------------------------------------
namespace intrusive
{
	struct Counted { atomic_vint counter{ 0 }; int v; Counted(int _v) :v(_v) { mc::Registry::add(this, "Counted"); } virtual ~Counted() { mc::Registry::remove(this, "Counted"); } };
	struct CountedD : Counted { using Counted::Counted; };
}
namespace vl
{
	template<typename T>
	struct ReferenceCounterOperator<T, typename std::enable_if<std::is_base_of<intrusive::Counted, T>::value>::type>
	{
		static atomic_vint* CreateCounter(T* r) { return &r->counter; }
		static void DeleteReference(atomic_vint*, void* r) { delete (T*)r; }
	};
}
MC_SCENARIO(intrusive_histories, 16, 3)
{
	using namespace intrusive;
	Ptr<Counted> h[3]; Ptr<CountedD> e; int m[4] = { -1,-1,-1,-1 }; CountedD* obj[2] = {}; int count[2] = {};
	auto set = [&](int k, int o) { if (o >= 0) count[o]++; int old = m[k]; m[k] = o; if (old >= 0 && --count[old] == 0) obj[old] = nullptr; };
	int depth = c.bound(10, 16);
	for (int d = 0; d < depth; d++)
	{
		uint64_t hs = 5; for (int x : m) hs = mc::mix(hs, x + 1);
		if (!c.visit(hs, depth - d)) break;
		int i = c.choose(3); bool ok = true;
		switch (c.choose(8))
		{
		case 0: { int s = obj[0] ? (obj[1] ? -1 : 1) : 0; if (s < 0) { ok = false; break; } c.log("h%d = new", i); auto p = new CountedD(s); obj[s] = p; h[i] = Ptr<CountedD>(p); set(i, s); break; }
		case 1: { int j = c.choose(2); if (!obj[j]) { ok = false; break; } c.log("h%d = Ptr(plain pointer to object %d)", i, j); h[i] = Ptr<Counted>((Counted*)obj[j]); set(i, j); break; }
		case 2: { int j = c.choose(3); c.log("h%d = h%d", i, j); h[i] = h[j]; set(i, m[j]); break; }
		case 3: c.log("h%d = nullptr", i); h[i] = nullptr; set(i, -1); break;
		case 4: c.log("e = h%d.Cast", i); e = h[i].Cast<CountedD>(); set(3, m[i]); break;
		case 5: c.log("h%d = e", i); h[i] = e; set(i, m[3]); break;
		case 6: { c.log("h%d = move(e)", i); h[i] = std::move(e); int o = m[3]; if (o >= 0) count[o]++; set(3, -1); set(i, o); if (o >= 0) count[o]--; break; }
		case 7: { // detach and re-wrap: the counter survives inside the object
			if (m[i] < 0) { ok = false; break; } c.log("h%d re-wrapped after Detach", i); auto p = h[i].Detach(); MC_CHECK(!h[i], "a detached handle still refers to the object"); h[i] = Ptr<Counted>(p); break; }
		}
		if (!ok) break;
		c.step();
		for (int k = 0; k < 3; k++) MC_CHECK(h[k].Obj() == (m[k] < 0 ? nullptr : obj[m[k]]), "handle %d", k);
		MC_CHECK(e.Obj() == (m[3] < 0 ? nullptr : obj[m[3]]), "handle e");
		long expect = (obj[0] ? 1 : 0) + (obj[1] ? 1 : 0);
		MC_CHECK(mc::Registry::live() == expect, "%ld objects alive, expected %ld", mc::Registry::live(), expect);
	}
}

// ------------------------------------------------------------------------------------------------------------
// Scenario family 5: many handles to one object; the object goes with the last one, whatever the number and order
// ------------------------------------------------------------------------------------------------------------
MC_SCENARIO(many_handles, 16, 1)
{
	int n = 1 + c.choose(c.bound(300, 1200));
	int order = c.choose(4);
	int how = c.choose(3); // release by nullptr, by overwriting with another handle, by destruction
	struct N { int v = 9; N() { mc::Registry::add(this, "N"); } ~N() { mc::Registry::remove(this, "N"); } };
	c.log("%d handles, order %d, release %d", n, order, how);
	{
		Ptr<N>* h = new Ptr<N>[n];
		h[0] = Ptr(new N);
		for (int i = 1; i < n; i++) { if (order == 3) h[i] = h[0]; else h[i] = h[i - 1]; c.step(); }
		for (int k = 0; k < n; k++)
		{
			int i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k % 2 ? n - 1 - k / 2 : k / 2) : (k == n - 1 ? 0 : k + 1);
			MC_CHECK(mc::Registry::live() == 1 && h[i]->v == 9, "object dead with %d handles left", n - k);
			if (how == 0) h[i] = nullptr;
			else if (how == 1) { Ptr<N> e; h[i] = e; }
			else { Ptr<N> t(std::move(h[i])); }
			c.step();
		}
		MC_CHECK(mc::Registry::live() == 0, "object alive after the last of %d handles is gone", n);
		c.state(n * 16 + order * 4 + how);
		delete[] h;
	}
}
