// P27: dates and times: the fields, the order, the distance and the conversion between local time and UTC agree with the
// proleptic Gregorian calendar and with the time zone of the system.
#include "coll.h"
#include <Primitives/DateTime.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <array>
// ---- the clock of the system is a parameter of the exploration -----------------------------------------------------
static bool faked; static time_t fakeSec; static long fakeUsec; static int reads;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { if (faked) { reads++; tv->tv_sec = fakeSec; tv->tv_usec = fakeUsec; return 0; } struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept { if (faked && id == CLOCK_REALTIME) { reads++; ts->tv_sec = fakeSec; ts->tv_nsec = fakeUsec * 1000; return 0; } return (int)syscall(SYS_clock_gettime, id, ts); }
extern "C" time_t time(time_t* t) noexcept { struct timeval tv; gettimeofday(&tv, nullptr); if (t) *t = tv.tv_sec; return tv.tv_sec; }
// ---- calendar ------------------------------------------------------------------------------------------------------
typedef long long ll;
static ll daysFromCivil(ll y, int m, int d) { y -= m <= 2; ll era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (ll)doe - 719468; }
struct Civil { ll y; int mo, d, h, mi, s, wd; bool operator==(const Civil&) const = default; };
static Civil civil(ll t) // fields of a count of seconds since 1970
{
	ll z = t >= 0 ? t / 86400 : -((-t + 86399) / 86400); int sec = (int)(t - z * 86400); int wd = (int)(((z % 7) + 11) % 7); z += 719468; ll era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; ll y = (ll)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; int d = (int)(doy - (153 * mp + 2) / 5 + 1), m = (int)(mp < 10 ? mp + 3 : mp - 9);
	return { y + (m <= 2), m, d, sec / 3600, sec / 60 % 60, sec % 60, wd };
}
static long offsetAt(time_t t) { struct tm x; localtime_r(&t, &x); return x.tm_gmtoff; }
static const char* zones[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3", "IST-5:30", "NPT-5:45", "LHST-10:30LHDT-11,M10.1.0,M4.1.0/2", "<-12>12", "<+14>-14", "<-03>3<-02>,M3.5.0/-2,M10.5.0/-1" };
static const int zoneCount = 10;
static std::vector<long> offsets; // that occur in the zone
static void useZone(int z) { setenv("TZ", zones[z], 1); tzset(); offsets.clear(); for (time_t t : { 1700000000, 1700000000 + 91 * 86400, 1700000000 + 182 * 86400, 1700000000 + 273 * 86400 }) { long o = offsetAt(t); if (std::find(offsets.begin(), offsets.end(), o) == offsets.end()) offsets.push_back(o); } }
// the instants (seconds since 1970) whose local reading is the given count of seconds
static int instants(ll reading, ll& t) { int n = 0; for (long o : offsets) if (offsetAt((time_t)(reading - o)) == o) { t = reading - o; n++; } return n; }
static bool unique(ll reading) { ll t; return instants(reading, t) == 1; }
static std::string showDT(const DateTime& d) { char b[100]; snprintf(b, sizeof(b), "%ld-%02ld-%02ld %02ld:%02ld:%02ld.%03ld (day %ld)", (long)d.year, (long)d.month, (long)d.day, (long)d.hour, (long)d.minute, (long)d.second, (long)d.milliseconds, (long)d.dayOfWeek); return b; }
static std::string showCivil(const Civil& f, int ms) { char b[100]; snprintf(b, sizeof(b), "%lld-%02d-%02d %02d:%02d:%02d.%03d (day %d)", f.y, f.mo, f.d, f.h, f.mi, f.s, ms, f.wd); return b; }
static bool reads_as(const DateTime& d, const Civil& f, int ms) { return d.year == f.y && d.month == f.mo && d.day == f.d && d.hour == f.h && d.minute == f.mi && d.second == f.s && d.milliseconds == ms && d.dayOfWeek == f.wd; }
static void expect(const DateTime& d, ll reading, int ms, const char* what) { auto f = civil(reading); MC_CHECK(reads_as(d, f, ms), "%s is %s, expected %s", what, showDT(d).c_str(), showCivil(f, ms).c_str()); }
static void same(const DateTime& a, const DateTime& b, const char* what) { MC_CHECK(a == b && (a <=> b) == 0 && a.osMilliseconds == b.osMilliseconds && showDT(a) == showDT(b), "%s: %s and %s differ", what, showDT(a).c_str(), showDT(b).c_str()); }
static DateTime from(ll reading, int ms) { auto f = civil(reading); return DateTime::FromDateTime((vint)f.y, f.mo, f.d, f.h, f.mi, f.s, ms); }
// everything about one instant
static void checkInstant(Ctx& c, ll t, int ms, DateTime* prev, ll* prevT)
{
	ll local = t + offsetAt((time_t)t);
	if (unique(local))
	{
		DateTime d = from(local, ms); expect(d, local, ms, "the date made of its fields"); same(DateTime::FromOSInternal(d.osInternal), d, "the internal value");
		if (*prevT >= 0) { MC_CHECK(*prev < d && prev->osMilliseconds < d.osMilliseconds, "%s is not earlier than %s", showDT(*prev).c_str(), showDT(d).c_str()); vuint64_t gap = (vuint64_t)(t * 1000 + ms - *prevT); same(prev->Forward(gap), d, "moving forward"); same(d.Backward(gap), *prev, "moving backward"); }
		*prev = d; *prevT = t * 1000 + ms;
		if (unique(t)) { DateTime u = d.ToUtcTime(); expect(u, t, ms, "the UTC time of a local time"); same(u.ToLocalTime(), d, "local time to UTC and back"); c.step(2); }
		c.step(4);
	}
	if (unique(t)) { DateTime u = from(t, ms); expect(u.ToLocalTime(), local, ms, "the local time of a UTC time"); c.step(2); if (unique(local)) same(u.ToLocalTime().ToUtcTime(), u, "UTC to local time and back"); }
}
MC_SCENARIO(calendar, 64, 2)
{
	int z = c.choose(zoneCount), y = c.choose(c.bound(136, 136)); y = y < 132 ? 1971 + y : y == 132 ? 2399 : y == 133 ? 2400 : y == 134 ? 9998 : 2500; useZone(z); c.log("zone %s year %d", zones[z], y);
	{ mc::Untracked u; DateTime warm = DateTime::FromDateTime(2000, 1, 1); (void)warm; }
	DateTime prev; ll prevT = -1, first = daysFromCivil(y, 1, 1) * 86400, end = daysFromCivil(y + 1, 1, 1) * 86400; long last = offsetAt((time_t)first - 86400);
	for (ll day = first; day < end; day += 86400)
	{
		long off = offsetAt((time_t)day + 86400); bool near = off != last || offsetAt((time_t)day + 2 * 86400) != off || offsetAt((time_t)day) != off; last = off;
		if (near) { for (ll t = day; t < day + 86400; t += 1800) checkInstant(c, t, 0, &prev, &prevT); for (ll t : { day + 86399 }) checkInstant(c, t, 999, &prev, &prevT); }
		else if (c.thorough) { for (int h = 0; h < 24; h++) checkInstant(c, day + h * 3600 + h * 60 + h, h * 41, &prev, &prevT); checkInstant(c, day + 86399, 999, &prev, &prevT); }
		else { checkInstant(c, day, 0, &prev, &prevT); checkInstant(c, day + 43199, 1, &prev, &prevT); checkInstant(c, day + 86399, 999, &prev, &prevT); }
	}
	c.state(z * 10000 + y);
}
MC_SCENARIO(distances, 32, 2)
{
	int z = c.choose(zoneCount); useZone(z); static const ll ts[] = { 86400 * 3, 951782400, 1077926400, 1700000000, 1709164800, 4102444800, 13569465600 }; ll t = ts[c.choose(7)]; int ms = c.pick({ 0, 1, 500, 999 });
	if (!unique(t + offsetAt((time_t)t))) return; DateTime d = from(t + offsetAt((time_t)t), ms);
	for (vuint64_t gap : { 0ull, 1ull, 999ull, 1000ull, 59999ull, 60000ull, 3600000ull, 86399999ull, 86400000ull, 2678400000ull, 31536000000ull, 31622400000ull, 126230400000ull })
	{
		ll t2 = (t * 1000 + ms + (ll)gap) / 1000; int ms2 = (int)((t * 1000 + ms + (ll)gap) % 1000); DateTime e = d.Forward(gap); expect(e, t2 + offsetAt((time_t)t2), ms2, "a date moved forward"); same(e.Backward(gap), d, "moving forward and back"); MC_CHECK((d < e) == (gap > 0) && (d == e) == (gap == 0) && (e > d) == (gap > 0), "the order of a date and a later one"); c.step(2);
		if (t * 1000 + ms >= (ll)gap) { ll p = t * 1000 + ms - (ll)gap; DateTime b = d.Backward(gap); expect(b, p / 1000 + offsetAt((time_t)(p / 1000)), (int)(p % 1000), "a date moved backward"); same(b.Forward(gap), d, "moving backward and forward"); c.step(2); }
	}
	c.state(z * 100 + t % 97);
}
MC_SCENARIO(current_time, 32, 2)
{
	int z = c.choose(zoneCount), month = c.choose(24), hour = c.choose(4) * 6 + 1; useZone(z); ll t = 1704067200ll + month * 1314900ll * 2 / 2 + hour * 3600; long us = c.pick({ 0L, 999L, 1000L, 500000L, 999999L }); int ms = (int)(us / 1000); c.log("zone %s, clock %lld.%06ld", zones[z], t, us);
	faked = true; fakeSec = (time_t)t; fakeUsec = us; reads = 0; DateTime l = DateTime::LocalTime(), u = DateTime::UtcTime(); faked = false; c.step(2); c.state(z * 1000 + month * 10 + hour);
	if (reads < 2) return; // the implementation reads the clock in another way
	ll local = t + offsetAt((time_t)t); expect(l, local, ms, "the current local time"); if (unique(t)) expect(u, t, ms, "the current UTC time"); if (unique(t) && unique(local)) { same(l.ToUtcTime(), u, "the current local time as UTC"); same(u.ToLocalTime(), l, "the current UTC time as local time"); }
}
// the order of dates before 1970
MC_SCENARIO(before_1970, 4, 1)
{
	useZone(0); int y = 1901 + c.choose(69); c.log("year %d", y); bool ok = true; std::string what;
	for (int m = 1; m <= 12; m++) { ll t = daysFromCivil(y, m, 1) * 86400 + 3600; DateTime d = from(t, 0), e = DateTime::FromDateTime(2000, 1, 1); expect(d, t, 0, "the date made of its fields"); c.step(); if (!(d < e)) { ok = false; what = showDT(d) + " is not earlier than " + showDT(e); } }
	if (!ok) mc::finding("before-1970", "%s", what.c_str()); c.state(y);
}
// a replaced implementation receives every call, and removing it restores the system
struct Fake : IDateTimeImpl
{
	std::vector<int> calls; DateTime made(vuint64_t v) { DateTime d; d.osInternal = v; d.osMilliseconds = v; d.year = (vint)(v % 1000); return d; }
	DateTime FromDateTime(vint y, vint mo, vint d, vint h, vint mi, vint s, vint ms)override { calls.push_back(1); return made((vuint64_t)(y + mo * 2 + d * 3 + h * 5 + mi * 7 + s * 11 + ms * 13)); }
	DateTime FromOSInternal(vuint64_t o)override { calls.push_back(2); return made(o); }
	vuint64_t LocalTime()override { calls.push_back(3); return 333; }
	vuint64_t UtcTime()override { calls.push_back(4); return 444; }
	vuint64_t LocalToUtcTime(vuint64_t o)override { calls.push_back(5); return o + 5; }
	vuint64_t UtcToLocalTime(vuint64_t o)override { calls.push_back(6); return o + 600; }
	vuint64_t Forward(vuint64_t o, vuint64_t m)override { calls.push_back(7); return o + m * 2; }
	vuint64_t Backward(vuint64_t o, vuint64_t m)override { calls.push_back(8); return o - m * 2; }
};
MC_SCENARIO(replaced_implementation, 8, 2)
{
	useZone(0); Fake a, b; Fake* cur = nullptr; int depth = 3; DateTime sys = DateTime::FromDateTime(2020, 5, 17, 1, 2, 3, 4); struct Restore { ~Restore() { InjectDateTimeImpl(nullptr); } } restore;
	for (int i = 0; i < depth; i++)
	{
		int op = c.choose(9); if (cur) cur->calls.clear(); int want = 0; vuint64_t exp = 0; DateTime r; DateTime base; base.osInternal = 5000;
		if (op < 3) { cur = op == 0 ? nullptr : op == 1 ? &a : &b; c.log("inject %d", op); InjectDateTimeImpl(cur); continue; }
		if (!cur) { DateTime d = DateTime::FromDateTime(2020, 5, 17, 1, 2, 3, 4); same(d, sys, "the system implementation"); expect(d, daysFromCivil(2020, 5, 17) * 86400 + 3723, 4, "the system implementation"); c.step(); continue; }
		switch (op) { case 3: r = DateTime::FromDateTime(1, 2, 3, 4, 5, 6, 7); want = 1; exp = 1 + 4 + 9 + 20 + 35 + 66 + 91; break; case 4: r = DateTime::LocalTime(); want = 3; exp = 333; break; case 5: r = DateTime::UtcTime(); want = 4; exp = 444; break; case 6: r = base.ToUtcTime(); want = 5; exp = 5005; break; case 7: r = base.ToLocalTime(); want = 6; exp = 5600; break; case 8: r = c.flip() ? base.Forward(10) : base.Backward(10); want = 0; exp = r.osInternal; MC_CHECK(exp == 5020 || exp == 4980, "moving was not delegated"); break; }
		MC_CHECK(r.osInternal == exp && r.year == (vint)(exp % 1000), "operation %d gave %llu, expected %llu", op, (unsigned long long)r.osInternal, (unsigned long long)exp); MC_CHECK(!want || std::count(cur->calls.begin(), cur->calls.end(), want) == 1, "operation %d was not delegated exactly once", op); c.step(); c.state(op * 10 + (cur == &a));
	}
}
