// P28: a reference associated with a collection stays with it and is told exactly once, when that collection is destroyed.
#include "coll.h"
struct Ref : public Object, public ICollectionReference { int* disposed; int id; Ref(int* d, int i) :disposed(d), id(i) { mc::Registry::add(this, "reference"); } ~Ref() { mc::Registry::remove(this, "reference"); } void OnDisposed()override { mc::Registry::use(this, "OnDisposed"); ++*disposed; } };
struct OtherRef : public Object, public ICollectionReference { void OnDisposed()override {} };
template<typename C> struct Make { static C* make() { return new C(); } };
template<> struct Make<Array<int>> { static Array<int>* make() { return new Array<int>(2); } };
template<> struct Make<LazyList<int>> { static LazyList<int>* make() { auto l = Ptr(new List<int>); l->Add(1); return new LazyList<int>(l); } };
template<typename C> constexpr bool copies = std::is_same_v<C, LazyList<int>>;
// changes of the content
void content(Array<int>& a, int how) { if (how == 0) a.Resize(3); else if (how == 1) a.Resize(0); else if (how == 2) { Array<int> b(1); a = std::move(b); } else if (how == 3) CopyFrom(a, From(a)); }
void content(List<int>& a, int how) { if (how == 0) { a.Add(1); a.Insert(0, 2); } else if (how == 1) a.Clear(); else if (how == 2) { List<int> b; b.Add(5); a = std::move(b); } else if (how == 3) { List<int> b; b.Add(4); CopyFrom(a, b); } else if (a.Count()) a.RemoveAt(0); }
void content(SortedList<int>& a, int how) { if (how == 0) { a.Add(1); a.Add(0); } else if (how == 1) a.Clear(); else if (how == 2) { SortedList<int> b; b.Add(5); a = std::move(b); } else if (how == 3) { List<int> b; b.Add(4); CopyFrom(a, b); } else if (a.Count()) a.RemoveAt(0); }
void content(Dictionary<int, int>& a, int how) { if (how == 0) { a.Set(1, 1); a.Set(0, 1); } else if (how == 1) a.Clear(); else if (how == 2) { Dictionary<int, int> b; b.Add(5, 5); a = std::move(b); } else if (how == 3) { Dictionary<int, int> b; b.Add(4, 4); CopyFrom(a, b); } else a.Remove(1); }
void content(Group<int, int>& a, int how) { if (how == 0) { a.Add(1, 1); a.Add(1, 2); } else if (how == 1) a.Clear(); else if (how == 2) { Group<int, int> b; b.Add(5, 5); a = std::move(b); } else if (how == 3) { Group<int, int> b; b.Add(4, 4); CopyFrom(a, b); } else a.Remove(1); }
void content(LazyList<int>& a, int how) { if (how == 0) a.Count(); else if (how == 1) a = LazyList<int>(); else if (how == 2) a = a.Select([](int x) { return x + 1; }); else if (how == 3) { auto l = Ptr(new List<int>); a = l; } else a.Evaluate(true); }
template<typename C> void history(Ctx& c, int depth)
{
	typedef std::remove_cvref_t<decltype(*std::declval<C>().CreateEnumerator())> En; typedef typename En::ElementType T;
	const int slots = 2, maxRefs = 16; int disposed[maxRefs] = {}, expected[maxRefs] = {}, refs = 0;
	{
		C* s[slots]; int m[slots] = { -1, -1 }; for (auto& p : s) p = Make<C>::make(); std::vector<Ptr<ICollectionReference>> keep(maxRefs); bool kept[maxRefs] = {};
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(slots), j = 1 - i;
			switch (c.choose(8))
			{
			case 0: { int id = refs++; bool hold = c.flip(); c.log("associate reference %d with %d%s", id, i, hold ? " (kept by the caller)" : ""); Ptr<ICollectionReference> r(new Ref(&disposed[id], id)); const C& cc = *s[i]; bool threw = raises([&] { cc.SetCollectionReference(r); }); MC_CHECK(threw == (m[i] >= 0), "associating a %s reference %s", m[i] >= 0 ? "second" : "first", threw ? "raised" : "did not raise"); if (m[i] < 0) m[i] = id; if (hold) { keep[id] = r; kept[id] = true; } break; }
			case 6: { c.log("associate nothing with %d", i); bool threw = raises([&] { s[i]->SetCollectionReference(nullptr); }); MC_CHECK(threw == (m[i] >= 0), "associating nothing with a collection that has %s reference %s", m[i] >= 0 ? "a" : "no", threw ? "raised" : "did not raise"); break; }
			case 7: { int k = m[i] >= 0 && c.flip() ? i : j; c.log("associate the reference of %d with %d", k, i); auto r = s[k]->GetCollectionReference(); bool threw = raises([&] { s[i]->SetCollectionReference(r); }); MC_CHECK(threw == (m[i] >= 0), "associating the reference of %d with %d, which has %s, %s", k, i, m[i] >= 0 ? "one" : "none", threw ? "raised" : "did not raise"); if (m[i] < 0) m[i] = m[k]; break; }
			case 1: { c.log("destroy %d", i); delete s[i]; s[i] = Make<C>::make(); if (m[i] >= 0) expected[m[i]]++; m[i] = -1; break; }
			case 2: { int how = c.choose(5); c.log("use %d (%d)", i, how); auto e = s[i]->CreateEnumerator(); while (e->Next()); delete e; content(*s[i], how); break; }
			case 3: { c.log("move %d into %d", j, i); if constexpr (requires(C& a, C& b) { a = std::move(b); }) *s[i] = std::move(*s[j]); break; }
			case 4: { c.log("a temporary made of %d by moving", i); if constexpr (std::is_move_constructible_v<C>) { C t(std::move(*s[i])); MC_CHECK(!t.GetCollectionReference(), "the association followed the elements"); } break; }
			case 5: { if constexpr (copies<C>) { c.log("copy %d, assign it to %d", j, i); { C t(*s[j]); MC_CHECK(!t.GetCollectionReference(), "the association was copied"); } *s[i] = *s[j]; } break; }
			}
			c.step(); uint64_t h = 1; long live = 0;
			for (int k = 0; k < slots; k++)
			{
				auto r = s[k]->GetCollectionReference(); MC_CHECK((bool)r == (m[k] >= 0), "collection %d: has a reference: %d, expected %d", k, (int)(bool)r, m[k] >= 0); h = mc::mix(h, m[k] + 2);
				if (m[k] >= 0) { MC_CHECK(dynamic_cast<Ref*>(r.Obj())->id == m[k], "collection %d has another reference", k); IEnumerable<T>* en = s[k]; auto typed = en->template TryGetCollectionReference<Ref>(); MC_CHECK(typed && typed->id == m[k], "typed access differs"); MC_CHECK(raises([&] { en->template TryGetCollectionReference<OtherRef>(); }), "typed access with another type did not raise"); }
				else { IEnumerable<T>* en = s[k]; MC_CHECK(!en->template TryGetCollectionReference<OtherRef>(), "typed access to no reference"); }
				MC_CHECK(s[k]->GetCollectionObject() == static_cast<const Object*>(s[k]), "the collection object is not the collection");
			}
			for (int k = 0; k < refs; k++) { MC_CHECK(disposed[k] == expected[k], "reference %d was told %d times, expected %d", k, disposed[k], expected[k]); if (kept[k] || m[0] == k || m[1] == k) live++; h = mc::mix(h, expected[k]); }
			MC_CHECK(mc::Registry::live() == live, "%ld references alive, expected %ld", mc::Registry::live(), live); c.state(h);
		}
		for (int k = 0; k < slots; k++) { delete s[k]; if (m[k] >= 0) expected[m[k]]++; }
		for (int k = 0; k < refs; k++) MC_CHECK(disposed[k] == expected[k], "at the end reference %d was told %d times, expected %d", k, disposed[k], expected[k]);
	}
	MC_CHECK(mc::Registry::live() == 0, "references leaked");
}
typedef Dictionary<int, int> Dict; typedef Group<int, int> Grp;
MC_SCENARIO(array, 16, 3) { history<Array<int>>(c, c.bound(4, 5)); }
MC_SCENARIO(list, 16, 3) { history<List<int>>(c, c.bound(4, 6)); }
MC_SCENARIO(sorted_list, 16, 3) { history<SortedList<int>>(c, c.bound(4, 6)); }
MC_SCENARIO(dictionary, 16, 3) { history<Dict>(c, c.bound(4, 5)); }
MC_SCENARIO(group, 16, 3) { history<Grp>(c, c.bound(4, 5)); }
MC_SCENARIO(lazy_list, 16, 3) { history<LazyList<int>>(c, c.bound(4, 6)); }
