// P24: raising an event runs exactly the attached callbacks, once each, with the raised arguments.
#include "coll.h"
#include <Primitives/Event.h>
typedef Event<void(int, const WString&)> E;
static std::vector<int> ran; static WString lastText;
static void plain(int x, const WString& s) { ran.push_back(x * 100 + 99); lastText = s; }
struct Sender { int id; void on(int x, const WString& s) { ran.push_back(x * 100 + id); lastText = s; } };
struct H { Ptr<EventHandler> h; int id; int ev; bool attached; };
MC_SCENARIO(histories, 64, 4)
{
	int depth = c.bound(5, 6);
	{
		E* ev[2] = { new E, new E }; std::vector<H> hs; Sender senders[8]; int next = 0, raises = 0;
		for (int step = 0; step < depth; step++)
		{
			switch (c.choose(4))
			{
			case 0:
			{
				int e = c.choose(2), kind = hs.size() < 2 ? c.choose(3) : 0, id = next++; c.log("add handler %d (kind %d) to event %d", id, kind, e); Ptr<EventHandler> h;
				if (kind == 0) { Tracked cap(id); h = ev[e]->Add(Func<void(int, const WString&)>([cap](int x, const WString& s) { ran.push_back(x * 100 + El<Tracked>::read(cap)); lastText = s; })); }
				else if (kind == 1) { senders[id].id = id; h = ev[e]->Add(&senders[id], &Sender::on); }
				else { h = ev[e]->Add(&plain); }
				MC_CHECK(h && h->IsAttached(), "a new handler is not attached"); hs.push_back({ h, kind == 2 ? 99 : id, e, true }); if (kind != 0) hs.back().h = h; break;
			}
			case 1: { if (hs.empty()) break; int i = c.choose((int)hs.size()), e = c.choose(2); c.log("remove handler %d from event %d", i, e); bool exp = hs[i].attached && hs[i].ev == e; bool r = ev[e]->Remove(hs[i].h); MC_CHECK(r == exp, "Remove returned %d", r); if (exp) hs[i].attached = false; break; }
			case 2:
			{
				int e = c.choose(2); raises++; c.log("raise event %d", e); ran.clear(); lastText = WString(); WString s = raises % 2 ? WString::Unmanaged(L"odd") : WString::Unmanaged(L"even"); if (raises % 2) (*ev[e])(raises, s); else (*ev[e])(raises, WString(L"even"));
				std::vector<int> exp; for (auto& h : hs) if (h.attached && h.ev == e) exp.push_back(raises * 100 + h.id); std::sort(exp.begin(), exp.end()); std::sort(ran.begin(), ran.end()); MC_CHECK(ran == exp, "raising ran %s, expected %s", show(ran).c_str(), show(exp).c_str()); MC_CHECK(exp.empty() || lastText == s, "the callbacks saw another argument"); break;
			}
			case 3: { int which = c.choose(2); if (which == 0) { Ptr<EventHandler> none; c.log("remove nothing"); MC_CHECK(!ev[0]->Remove(none), "removing an empty handle succeeded"); } else { struct Other : EventHandler { bool IsAttached()override { return true; } }; Ptr<EventHandler> o(new Other); c.log("remove a foreign handler"); MC_CHECK(!ev[0]->Remove(o), "removing a foreign handle succeeded"); } break; }
			}
			c.step(); uint64_t h = 1; for (auto& x : hs) { MC_CHECK(x.h->IsAttached() == x.attached, "handler %d: attached is %d", x.id, (int)x.h->IsAttached()); h = mc::mix(h, x.id * 4 + x.ev * 2 + x.attached); } c.state(h);
		}
		lastText = WString(); delete ev[0]; delete ev[1];
	}
	MC_CHECK(mc::Registry::live() == 0, "%ld captured values leaked", mc::Registry::live()); ran.clear(); ran.shrink_to_fit();
}
// a removed callback is released with its last handle, an attached one lives in the event without any handle
MC_SCENARIO(lifetimes, 16, 4)
{
	int n = c.range(1, c.bound(4, 5)); 
	{
		E e; std::vector<Ptr<EventHandler>> hs; int live = n;
		for (int i = 0; i < n; i++) { Tracked cap(i); hs.push_back(e.Add([cap](int x, const WString&) { ran.push_back(El<Tracked>::read(cap)); })); }
		MC_CHECK(mc::Registry::live() == live, "%ld captured values, expected %d", mc::Registry::live(), live); std::vector<int> exp;
		for (int i = 0; i < n; i++) { int how = c.choose(4); c.log("handler %d: %s%s", i, how & 1 ? "remove " : "", how & 2 ? "drop the handle" : ""); if (how & 1) MC_CHECK(e.Remove(hs[i]), "Remove failed"); else exp.push_back(i); if (how & 2) hs[i] = nullptr; if (how == 3) live--; MC_CHECK(mc::Registry::live() == live, "%ld captured values, expected %d", mc::Registry::live(), live); c.step(); }
		ran.clear(); e(1, WString::Unmanaged(L"t")); std::sort(ran.begin(), ran.end()); MC_CHECK(ran == exp, "raising ran %s, expected %s", show(ran).c_str(), show(exp).c_str()); c.state(mc::hashSeq(exp, live));
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked"); ran.clear(); ran.shrink_to_fit();
}
// every callback sees the same arguments, whatever earlier callbacks did to theirs and however they were passed
MC_SCENARIO(arguments, 16, 4)
{
	int n = c.range(1, c.bound(4, 5)); int form = c.choose(4); bool take = c.flip(); c.log("%d callbacks, argument form %d, %s", n, form, take ? "taking the value" : "reading");
	{
		Event<void(WString, Tracked)> e; std::vector<int> seen; int bad = 0; 
		for (int i = 0; i < n; i++) e.Add([&, i, take](WString s, Tracked t) { if (s != L"text" || El<Tracked>::read(t) != 5) bad++; seen.push_back(i); if (take) { WString mine(std::move(s)); Tracked other(std::move(t)); } });
		WString s(L"text"); Tracked t(5);
		switch (form) { case 0: e(s, t); MC_CHECK(s == L"text" && t.v == 5, "raising changed the arguments"); break; case 1: e(std::move(s), std::move(t)); break; case 2: e(WString(L"text"), Tracked(5)); break; case 3: e(L"text", 5); break; }
		MC_CHECK((int)seen.size() == n, "%zu callbacks ran, expected %d", seen.size(), n); MC_CHECK(bad == 0, "%d of %d callbacks saw other arguments than the event was raised with", bad, n); c.step(); c.state(n * 8 + form * 2 + take);
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked");
}
MC_SCENARIO(references, 8, 2)
{
	int n = c.choose(5); Event<void(int&)> e; for (int i = 0; i < n; i++) e.Add(Func<void(int&)>([](int& x) { x++; })); int x = 0; e(x); MC_CHECK(x == n, "an argument by reference was increased %d times, expected %d", x, n); Event<void()> none; int k = 0; for (int i = 0; i < n; i++) none.Add([&] { k++; }); none(); none(); MC_CHECK(k == 2 * n, "callbacks without arguments ran %d times", k); c.step(); c.state(n);
}
// raising inside a callback, and adding to another event inside a callback
MC_SCENARIO(nested, 16, 3)
{
	int n = c.range(1, 3), depth = c.choose(3); int count = 0, added = 0;
	{
		Event<void(int)> e, other; std::vector<Ptr<EventHandler>> hs;
		for (int i = 0; i < n; i++) e.Add([&](int d) { count++; if (d > 0) e(d - 1); hs.push_back(other.Add([&](int) { added++; })); });
		e(depth); int exp = 0, layer = 1; for (int d = 0; d <= depth; d++) { layer *= n; exp += layer; } MC_CHECK(count == exp, "%d callbacks ran, expected %d", count, exp); other(0); MC_CHECK(added == exp, "%d callbacks added, expected %d", added, exp); c.step(); c.state(n * 4 + depth);
	}
}
// many callbacks: every pattern of removals
MC_SCENARIO(many, 16, 3)
{
	int n = mc::bigSize(c, 5, c.bound(1100, 5000)), keep = c.choose(5), order = c.choose(2); c.log("%d callbacks, removal pattern %d", n, keep); std::vector<int> exp; ran.clear();
	{
		E e; std::vector<Ptr<EventHandler>> hs; for (int i = 0; i < n; i++) { Tracked cap(i); hs.push_back(e.Add([cap](int x, const WString&) { ran.push_back(x * 10000 + El<Tracked>::read(cap)); })); }
		auto kept = [&](int i) { return keep == 0 ? true : keep == 1 ? i % 2 == 0 : keep == 2 ? i == n - 1 : keep == 3 ? i == 0 : i % 7 != 3; };
		for (int j = 0; j < n; j++) { int i = order ? n - 1 - j : j; if (!kept(i)) { MC_CHECK(hs[i]->IsAttached() && e.Remove(hs[i]) && !hs[i]->IsAttached() && !e.Remove(hs[i]), "removing callback %d", i); c.step(); } }
		for (int i = 0; i < n; i++) { MC_CHECK(hs[i]->IsAttached() == kept(i), "callback %d", i); if (kept(i)) exp.push_back(20000 + i); }
		e(2, WString::Unmanaged(L"t")); std::sort(ran.begin(), ran.end()); MC_CHECK(ran == exp, "raising ran %s, expected %s", show(ran).c_str(), show(exp).c_str());
		Tracked cap(n); hs.push_back(e.Add([cap](int x, const WString&) { ran.push_back(x * 10000 + El<Tracked>::read(cap)); })); ran.clear(); e(2, WString::Unmanaged(L"t")); exp.push_back(20000 + n); std::sort(ran.begin(), ran.end()); MC_CHECK(ran == exp, "raising again ran %s, expected %s", show(ran).c_str(), show(exp).c_str()); c.step(2); c.state(mc::hashSeq(exp));
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked"); ran.clear(); ran.shrink_to_fit();
}
