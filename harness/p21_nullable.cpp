// P21: a Nullable is either empty or owns exactly one value; every construction, assignment and comparison follows that.
#include "coll.h"
#include <optional>
#include <cmath>
// a copyable and movable type that cannot be assigned
struct Fixed
{
	const int tag = 1; Tracked t;
	Fixed(int v) :t(v) {}
	Fixed(const Fixed& f) :t(f.t) {}
	Fixed(Fixed&& f) :t(std::move(f.t)) {}
	Fixed& operator=(const Fixed&) MC_NO_ASSIGN
	Fixed& operator=(Fixed&&) MC_NO_ASSIGN
	auto operator<=>(const Fixed& f)const { return t <=> f.t; }
	bool operator==(const Fixed& f)const { return t == f.t; }
};
template<> struct El<Fixed> { static Fixed make(int v) { return Fixed(v); } static int read(const Fixed& x) { return El<Tracked>::read(x.t); } static const bool tracked = true; };
// move only
struct Sole
{
	Tracked t{ 0 };
	Sole(int v) :t(v) {}
	Sole(Sole&& f) :t(std::move(f.t)) {}
	Sole& operator=(Sole&& f) { t = std::move(f.t); return *this; }
	Sole(const Sole&) MC_NO_COPY Sole& operator=(const Sole&) MC_NO_COPY_ASSIGN
	auto operator<=>(const Sole& f)const { return t <=> f.t; }
	bool operator==(const Sole& f)const { return t == f.t; }
};
template<> struct El<Sole> { static Sole make(int v) { return Sole(v); } static int read(const Sole& x) { return El<Tracked>::read(x.t); } static const bool tracked = true; };
typedef std::optional<int> Opt;
template<typename T> void observe(const Nullable<T>& n, const Opt& m, const char* what)
{
	MC_CHECK((bool)n == m.has_value(), "%s: holds a value: %d, expected %d", what, (int)(bool)n, (int)m.has_value());
	if (m) MC_CHECK(El<T>::read(n.Value()) == *m, "%s: the value is %d, expected %d", what, El<T>::read(n.Value()), *m);
	else MC_CHECK(raises([&] { (void)&n.Value(); }), "%s: reading the value of an empty one did not raise", what);
	MC_CHECK((const char*)&n <= (const char*)&n && (!m || ((const char*)&n.Value() >= (const char*)&n && (const char*)(&n.Value() + 1) <= (const char*)(&n + 1))), "%s: the value is not stored inside", what);
}
template<typename T> void compare(const Nullable<T>& a, const Opt& ma, const Nullable<T>& b, const Opt& mb)
{
	int e = !ma && !mb ? 0 : !ma ? -1 : !mb ? 1 : *ma < *mb ? -1 : *ma > *mb; auto o = a <=> b;
	MC_CHECK((o < 0 ? -1 : o > 0 ? 1 : 0) == e && (o == 0) == (e == 0), "comparison gives %d, expected %d", o < 0 ? -1 : o > 0 ? 1 : 0, e);
	MC_CHECK((a == b) == (e == 0) && (a != b) == (e != 0), "equality differs from ordering");
	MC_CHECK((a < b) == (e < 0) && (a > b) == (e > 0) && (a <= b) == (e <= 0) && (a >= b) == (e >= 0), "relational operators differ");
}
template<typename T> void history(Ctx& c, int slots, int depth)
{
	constexpr bool copyable = std::is_copy_constructible_v<T> && !std::is_same_v<T, Sole>;
	{
		std::vector<Nullable<T>*> s; std::vector<Opt> m;
		for (int i = 0; i < slots; i++) { s.push_back(new Nullable<T>()); m.push_back({}); }
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(slots), op = c.choose(10);
			switch (op)
			{
			case 0: c.log("%d.Reset()", i); s[i]->Reset(); m[i] = {}; break;
			case 1: if constexpr (copyable) { int v = c.choose(2); c.log("%d = value %d (copy)", i, v); const T x = El<T>::make(v); *s[i] = x; MC_CHECK(El<T>::read(x) == v, "the source changed"); m[i] = v; } break;
			case 2: { int v = c.choose(2); c.log("%d = value %d (move)", i, v); *s[i] = El<T>::make(v); m[i] = v; break; }
			case 3: if constexpr (copyable) { int j = c.choose(slots); c.log("%d = %d (copy)", i, j); const Nullable<T>& src = *s[j]; MC_CHECK(&(*s[i] = src) == s[i], "assignment does not return itself"); m[i] = m[j]; } break;
			case 4: { int j = c.choose(slots); if (i == j) break; c.log("%d = %d (move)", i, j); *s[i] = std::move(*s[j]); m[i] = m[j]; m[j] = {}; break; }
			case 5: if constexpr (copyable) { int j = c.choose(slots); if (i == j) break; c.log("%d = new from %d (copy)", i, j); const Nullable<T>& src = *s[j]; delete s[i]; s[i] = new Nullable<T>(src); m[i] = m[j]; } break;
			case 6: { int j = c.choose(slots); if (i == j) break; c.log("%d = new from %d (move)", i, j); delete s[i]; s[i] = new Nullable<T>(std::move(*s[j])); m[i] = m[j]; m[j] = {}; break; }
			case 7: { int v = c.choose(2); c.log("%d = new from value %d", i, v); delete s[i]; if constexpr (copyable) { const T x = El<T>::make(v); if (c.flip()) s[i] = new Nullable<T>(x); else s[i] = new Nullable<T>(El<T>::make(v)); } else s[i] = new Nullable<T>(El<T>::make(v)); m[i] = v; break; }
			case 8: if constexpr (copyable) { if (!m[i]) break; int j = c.choose(slots); c.log("%d = value of %d", j, i); *s[j] = s[i]->Value(); m[j] = m[i]; } break;
			case 9: if constexpr (copyable) { c.log("%d = Empty", i); *s[i] = Nullable<T>::Empty; m[i] = {}; } break;
			}
			c.step(); uint64_t h = 3; long live = 0;
			for (int k = 0; k < slots; k++) { observe(*s[k], m[k], "after the operation"); h = mc::mix(h, m[k] ? *m[k] + 1 : 0); live += m[k].has_value(); }
			for (int k = 0; k < slots; k++) for (int l = 0; l < slots; l++) compare(*s[k], m[k], *s[l], m[l]);
			checkLive<T>(live, "after the operation"); c.state(h);
		}
		for (auto p : s) delete p;
	}
	checkLive<T>(0, "after destruction");
}
MC_SCENARIO(tracked, 32, 3) { history<Tracked>(c, 3, c.bound(3, 4)); }
MC_SCENARIO(tracked_two, 32, 3) { history<Tracked>(c, 2, c.bound(4, 5)); }
MC_SCENARIO(not_assignable, 32, 3) { history<Fixed>(c, 2, c.bound(4, 5)); }
MC_SCENARIO(move_only, 32, 3) { history<Sole>(c, 2, c.bound(4, 6)); }
MC_SCENARIO(strings, 32, 3) { history<WString>(c, 2, c.bound(3, 4)); }
MC_SCENARIO(numbers, 32, 3) { history<int>(c, 2, c.bound(3, 4)); }
template<> struct El<Ptr<Tracked>> { static Ptr<Tracked> make(int v) { return Ptr(new Tracked(v)); } static int read(const Ptr<Tracked>& x) { return x ? x->v : -1; } static const bool tracked = false; };
// shared handles inside: the object lives as long as some Nullable holds it
MC_SCENARIO(shared_handles, 32, 3)
{
	int depth = c.bound(4, 5);
	{
		Nullable<Ptr<Tracked>> s[2]; int m[2] = { 0, 0 }; int next = 1; // 0 empty
		for (int step = 0; step < depth; step++)
		{
			int i = c.choose(2);
			switch (c.choose(4))
			{
			case 0: c.log("%d = new", i); s[i] = Ptr(new Tracked(next)); m[i] = next++; break;
			case 1: c.log("%d.Reset", i); s[i].Reset(); m[i] = 0; break;
			case 2: c.log("%d = %d", i, 1 - i); s[i] = s[1 - i]; m[i] = m[1 - i]; break;
			case 3: c.log("%d = move %d", i, 1 - i); s[i] = std::move(s[1 - i]); m[i] = m[1 - i]; m[1 - i] = 0; break;
			}
			c.step(); long live = (m[0] ? 1 : 0) + (m[1] && m[1] != m[0] ? 1 : 0);
			MC_CHECK(mc::Registry::live() == live, "%ld live objects, expected %ld", mc::Registry::live(), live);
			for (int k = 0; k < 2; k++) { MC_CHECK((bool)s[k] == (m[k] != 0), "slot %d", k); if (m[k]) MC_CHECK(s[k].Value()->v == m[k], "slot %d holds another object", k); }
			c.state(mc::mix(m[0], m[1]));
		}
	}
	MC_CHECK(mc::Registry::live() == 0, "leaked");
}
// chains: a Nullable replaced by the one that its own value owns
struct Chain { Tracked id; Nullable<Ptr<Chain>> next; Chain(int v) :id(v) {} };
MC_SCENARIO(from_inside, 4, 3)
{
	int n = 1 + c.choose(c.bound(4, 6));
	{
		Nullable<Ptr<Chain>> head; for (int k = n; k-- > 0;) { auto p = Ptr(new Chain(k)); p->next = head; head = p; }
		for (int k = 1; k <= n; k++)
		{
			auto& next = head.Value()->next; bool moving = c.flip(); c.log("the head of %d becomes its next (%s)", n - k + 1, moving ? "moved" : "copied");
			if (moving) head = std::move(next); else head = next;
			c.step(); MC_CHECK((bool)head == (k < n), "holds a value: %d after %d of %d left", (int)(bool)head, k, n); if (k < n) MC_CHECK(head.Value()->id.v == k, "the head is %d, expected %d", head.Value()->id.v, k);
			checkLive<Tracked>(n - k, "after the assignment"); c.state(mc::mix(n, k));
		}
	}
	checkLive<Tracked>(0, "after destruction");
}
// partially ordered contents
MC_SCENARIO(unordered_numbers, 4, 1)
{
	const double vs[] = { -INFINITY, -1, 0.0, -0.0, 1, INFINITY, NAN }; int i = c.choose(8), j = c.choose(8);
	Nullable<double> a, b; if (i < 7) a = vs[i]; if (j < 7) b = vs[j];
	std::partial_ordering e = i == 7 && j == 7 ? std::partial_ordering::equivalent : i == 7 ? std::partial_ordering::less : j == 7 ? std::partial_ordering::greater : vs[i] <=> vs[j];
	MC_CHECK((a <=> b) == e, "comparison of numbers differs"); MC_CHECK((a == b) == (e == 0) && (a != b) == (e != 0), "equality of numbers differs"); MC_CHECK((a < b) == (e < 0) && (a > b) == (e > 0) && (a <= b) == (e <= 0) && (a >= b) == (e >= 0), "relations of numbers differ"); MC_CHECK((a == a) == (i != 6) && (a != a) == (i == 6) && (a <= a) == (i != 6) && !(a < a) && (a <=> a) == (i == 6 ? std::partial_ordering::unordered : std::partial_ordering::equivalent), "comparison with itself differs"); c.step(); c.state(i * 8 + j);
}
