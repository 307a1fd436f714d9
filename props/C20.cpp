// C20: local and universal time conversions agree with the zone offset.
#include "values.h"
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
PBT_MAIN("C20", "A case is a process in one fixed-offset zone (up to 24 hours either way, fractional hours and seconds included) that converts some forty dates (around the ends of days, months, years and of the range, uniform) both ways, and reads the present with the clock held at generated instants (midnight, month, year and leap-day boundaries +-1 s, uniform); "
	"the oracle adds the offset to the tick count. Non-trivial: the offset is not zero; distinct by generated choices.")
// The library reads the present through the C library; while gHeld is set it sees the held instant instead.
static bool gHeld;
static int64_t gSec;
static long gNsec;
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	if (gHeld && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
		ts->tv_sec = gSec;
		ts->tv_nsec = gNsec;
		return 0;
	}
	return (int) syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t* t) noexcept {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (tv) {
		tv->tv_sec = ts.tv_sec;
		tv->tv_usec = ts.tv_nsec / 1000;
	}
	return 0;
}
int timespec_get(struct timespec* ts, int base) noexcept {
	return clock_gettime(CLOCK_REALTIME, ts) ? 0 : base;
}
}
namespace {
const int64_t kSec = 10000000LL, kUnixDay = 719162;
struct Hold {
	Hold(int64_t s, long ns) {
		gSec = s;
		gNsec = ns;
		gHeld = true;
	}
	~Hold() { gHeld = false; }
};
// Whether the library's clock goes through the functions above.
bool holdable() {
	Hold h(4000000000LL, 0);
	return DateTimeValue(DateTimeValue::get_UtcNow()).get_Year() == 2096;
}
int genOffset(Case& c) {
	static const int common[] = {0, 3600, -3600, 19800, 20700, -12600, 34200, 45900, 43200, -43200, 50400, -39600, 1800, -1800, 86400, -86400, 86399, -86399};
	switch (c.weighted({4, 3, 2})) {
	case 0:
		return common[c.draw(sizeof common / sizeof common[0])];
	case 1:
		return (int) c.near0(-96, 96) * 900;
	default:
		return (int) c.near0(-86400, 86400);
	}
}
void setZone(int off) {
	int a = std::abs(off);
	char b[64];
	snprintf(b, sizeof b, "ZON%c%02d:%02d:%02d", off > 0 ? '-' : '+', a / 3600, a / 60 % 60, a % 60);
	setenv("TZ", b, 1);
}
int64_t genInstant(Case& c) {                               // seconds since 1970
	static const int64_t days[][3] = {{2000, 1, 1}, {2000, 2, 29}, {2000, 3, 1}, {1999, 12, 31}, {2024, 2, 29}, {2024, 12, 31}, {2025, 1, 1}, {2026, 11, 19}, {2100, 2, 28}, {2100, 3, 1}, {1970, 1, 1}, {2038, 1, 19}, {2023, 7, 31}};
	int64_t d;
	switch (c.weighted({4, 2, 2})) {
	case 0: {
		auto& q = days[c.draw(sizeof days / sizeof days[0])];
		d = daysFromCivil(q[0], (int) q[1], (int) q[2]) - kUnixDay;
		break;
	}
	case 1: {
		int64_t y = c.range(1910, 2900);
		d = daysFromCivil(y, c.coin() ? 1 : (int) c.range(1, 12), 1) - (int64_t) c.draw(2) - kUnixDay;
		break;
	}
	default:
		d = c.range(-20000, 300000);
	}
	return d * 86400 + (c.coin() ? genTimeOfDay(c) / kSec : (int64_t) c.pick({0, 1, 3599, 3600, 43199, 43200, 82800, 86399}));
}
void dates(Case& c, int off) {
	int64_t t = genDateTicks(c);
	if (c.chance(1, 4)) {
		int64_t edge = c.coin() ? kMaxDateTicks : 0;
		t = edge + (int64_t) (c.coin() ? -off : off) * kSec + c.near0(-2, 2);
		t = std::min(kMaxDateTicks, std::max<int64_t>(0, t));
	}
	DateTimeValue v((DateTime((UInt64) t)));
	auto check = [&](const char* what, int64_t shift, Ex e, DateTime r, int mode) {     // mode 0: an error past the end, 1: the end, 2: either
		int64_t want = t + shift * kSec;
		if (want >= 0 && want <= kMaxDateTicks) {
			if (e != ExNone || (int64_t) r.value != want)
				c.fail("%s of %lld ticks in zone %+d s is %lld (%s), expected %lld", what, (long long) t, off, (long long) r.value, exName(e), (long long) want);
			return true;
		}
		c.label("past an end");
		if (e == ExNone) {
			if (mode == 0 || (int64_t) r.value != (want < 0 ? 0 : kMaxDateTicks))
				c.fail("%s of %lld ticks in zone %+d s, past an end, is %lld", what, (long long) t, off, (long long) r.value);
		}
		else if (mode == 1)
			c.fail("%s of %lld ticks in zone %+d s, past an end, ended with %s", what, (long long) t, off, exName(e));
		return false;
	};
	DateTime r, u;
	Ex e = tryCall([&] { r = v.ToLocalTime(); });
	bool in = check("ToLocalTime()", off, e, r, 2);
	e = tryCall([&] { u = v.ToLocalTime(true); });
	check("ToLocalTime(true)", off, e, u, 0);
	e = tryCall([&] { u = v.ToLocalTime(false); });
	check("ToLocalTime(false)", off, e, u, 1);
	e = tryCall([&] { u = v.ToUniversalTime(); });
	bool inU = check("ToUniversalTime", -(int64_t) off, e, u, 2);
	if (in && (int64_t) DateTimeValue(r).ToUniversalTime().value != t)
		c.fail("universal time of the local time of %lld ticks in zone %+d s is not the same date", (long long) t, off);
	if (inU && (int64_t) DateTimeValue(u).ToLocalTime().value != t)
		c.fail("local time of the universal time of %lld ticks in zone %+d s is not the same date", (long long) t, off);
	if (v.IsDaylightSavingTime())
		c.fail("%lld ticks count as daylight saving time in zone %+d s", (long long) t, off);
	if (v.get_Ticks() != t)
		c.fail("converting changed the date");
}
void present(Case& c, int off) {
	int64_t s = genInstant(c);
	long ns = c.coin() ? (long) c.draw(1000000000) : c.coin() ? 999999999 : 0;
	c.note("clock held at %lld.%09ld", (long long) s, ns);
	Hold h(s, ns);
	int64_t exact = (s + kUnixDay * 86400) * kSec + ns / 100;
	int64_t utc = (int64_t) DateTimeValue::get_UtcNow().value, now = (int64_t) DateTimeValue::get_Now().value, today = (int64_t) DateTimeValue::get_Today().value;
	if (utc > exact || utc <= exact - 10000)
		c.fail("get_UtcNow is %lld ticks at %lld", (long long) utc, (long long) exact);
	if (now - utc != (int64_t) off * kSec)
		c.fail("get_Now is %lld ticks after get_UtcNow in zone %+d s, clock %lld", (long long) (now - utc), off, (long long) s);
	if (today != now - now % kTicksPerDay)
		c.fail("get_Today is %lld ticks, now is %lld", (long long) today, (long long) now);
	if ((int64_t) DateTimeValue((DateTime((UInt64) utc))).ToLocalTime().value != now)
		c.fail("local time of get_UtcNow is not get_Now in zone %+d s, clock %lld", off, (long long) s);
	dates(c, off);                                           // the offset is the same whenever it is asked for
}
}
PBT_PROP_FORK(conversions, 120) {
	int off = genOffset(c);
	setZone(off);
	c.note("zone %+d s (TZ=%s)", off, getenv("TZ"));
	if (off)
		c.nontrivial();
	bool hold = holdable();
	if (!hold)
		c.label("clock not held");
	for (int i = 0; i < 20; ++i) {
		dates(c, off);
		if (hold)
			present(c, off);
	}
}
PBT_PROP_FORK(real_clock, 12) {
	int off = genOffset(c);
	setZone(off);
	c.note("zone %+d s (TZ=%s)", off, getenv("TZ"));
	if (off)
		c.nontrivial();
	auto real = [] {
		struct timespec ts;
		syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
		return (ts.tv_sec + kUnixDay * 86400) * kSec + ts.tv_nsec / 100;
	};
	int64_t a = real();
	int64_t utc = (int64_t) DateTimeValue::get_UtcNow().value, now = (int64_t) DateTimeValue::get_Now().value, today = (int64_t) DateTimeValue::get_Today().value;
	int64_t b = real();
	int64_t o = (int64_t) off * kSec;
	if (b < a)
		return;                                               // the clock was set back meanwhile
	if (utc <= a - 10000 || utc > b)
		c.fail("get_UtcNow is %lld, the clock says %lld to %lld", (long long) utc, (long long) a, (long long) b);
	if (now <= a + o - 10000 || now > b + o)
		c.fail("get_Now is %lld, the clock says %lld to %lld", (long long) now, (long long) (a + o), (long long) (b + o));
	if (today < (a + o) - (a + o) % kTicksPerDay || today > (b + o) - (b + o) % kTicksPerDay || today % kTicksPerDay)
		c.fail("get_Today is %lld", (long long) today);
}
namespace {
// A zone with daylight saving time by rule.
struct Rule {
	int std, save;                                         // seconds east of Greenwich in winter, seconds added in summer
	int m[2], w[2], d[2], h[2];                            // start and end: month, week (5: last), week day, second of the wall clock's day
	int64_t wall(int64_t y, int k) const {                   // seconds since 0001 of the change, by the clock in force before it
		int64_t first = daysFromCivil(y, m[k], 1);
		int day = (int) ((d[k] - (int) ((first + 1) % 7) + 7) % 7);   // 0001-01-01 is a Monday
		day += 7 * (w[k] - 1);
		while (day >= monthLength(y, m[k]))
			day -= 7;
		return (first + day) * 86400 + h[k];
	}
	// 1 in summer, 0 in winter, -1 where the wall clock does not tell
	int summer(int64_t t) const {
		int64_t y;
		int mm, dd;
		civilFromDays(t / 86400, y, mm, dd);
		int64_t s = wall(y, 0), e = wall(y, 1);
		if ((t >= s && t < s + save) || (t >= e - save && t < e))
			return -1;
		return m[0] < m[1] ? t >= s && t < e : t >= s || t < e;
	}
	int offsetAt(int64_t utc) const {                         // utc: seconds since 0001
		int64_t y;
		int mm, dd;
		civilFromDays((utc + std) / 86400, y, mm, dd);
		bool after = utc >= wall(y, 0) - std, before = utc < wall(y, 1) - std - save;
		return std + ((m[0] < m[1] ? after && before : after || before) ? save : 0);
	}
};
std::string zoneText(int off) {
	int a = std::abs(off);
	char b[64];
	snprintf(b, sizeof b, "%c%02d:%02d:%02d", off > 0 ? '-' : '+', a / 3600, a / 60 % 60, a % 60);
	return b;
}
}
PBT_PROP_FORK(daylight_rules, 90) {
	Rule r;
	static const int saves[] = {3600, 3600, 1800, 7200};
	r.std = (int) c.near0(-48, 48) * 900;
	r.save = saves[c.draw(4)];
	r.m[0] = (int) c.range(2, 5);
	r.m[1] = (int) c.range(8, 11);
	if (c.coin())
		std::swap(r.m[0], r.m[1]);
	for (int k = 0; k < 2; ++k) {
		r.w[k] = (int) c.range(1, 5);
		r.d[k] = (int) c.draw(7);
		r.h[k] = (int) c.range(1, 4) * 3600 + (c.coin() ? (int) c.pick({1800, 900, 2700, 60, 3540, 1, 59}) : c.chance(1, 3) ? (int) c.draw(3600) : 0);
	}
	std::string tz = "STD" + zoneText(r.std) + "DST" + zoneText(r.std + r.save);
	for (int k = 0; k < 2; ++k) {
		char b[64];
		snprintf(b, sizeof b, ",M%d.%d.%d/%d:%02d:%02d", r.m[k], r.w[k], r.d[k], r.h[k] / 3600, r.h[k] / 60 % 60, r.h[k] % 60);
		tz += b;
	}
	setenv("TZ", tz.c_str(), 1);
	c.note("TZ=%s", tz.c_str());
	c.nontrivial();
	bool hold = holdable();
	if (!hold)
		c.label("clock not held");
	for (int i = 0; i < 40; ++i) {
		int64_t y = c.coin() ? c.range(1995, 2040) : c.range(1975, 9990);
		int64_t t;
		switch (c.weighted({3, 1, 1})) {
		case 0: {
			static const int near[] = {0, -1, 1, 60, -60, 1800, -1800, 3600, -3600, 7200, -7200, 86400, -86400};
			t = r.wall(y, (int) c.draw(2)) + near[c.draw(13)] + c.near0(-2, 2);
			break;
		}
		case 1:
			t = daysFromCivil(y, (int) c.range(1, 12), 1) * 86400 + (int64_t) c.draw(86400);
			break;
		default:
			t = daysFromCivil(y, 1, 1) * 86400 + (int64_t) c.draw(365 * 86400);
		}
		int want = r.summer(t);
		DateTimeValue v((DateTime((UInt64) (t * kSec + (int64_t) c.draw(10000000)))));
		bool got = v.IsDaylightSavingTime();
		if (want >= 0 && got != (want != 0))
			c.fail("%s is daylight saving time: %d, the rule says %d (TZ=%s)", narrow(ws(v.ToString())).c_str(), (int) got, want, tz.c_str());
		if (want < 0)
			c.label("wall clock does not tell");
		if (!hold)
			continue;
		// the present, read next to a change
		int64_t yy = c.range(1975, 2200);
		int64_t u = c.chance(1, 4) ? daysFromCivil(yy, 1, 1) * 86400 + (int64_t) c.draw(365 * 86400)
			: r.wall(yy, (int) c.draw(2)) - r.std - (c.coin() ? r.save : 0) + c.near0(-3, 3);
		Hold h(u - kUnixDay * 86400, (long) c.draw(1000000000));
		int64_t utc = (int64_t) DateTimeValue::get_UtcNow().value, now = (int64_t) DateTimeValue::get_Now().value, off = r.offsetAt(u);
		if (now - utc != off * kSec)
			c.fail("get_Now is %lld ticks after get_UtcNow at %s UTC, the offset is %+d s (TZ=%s)", (long long) (now - utc), narrow(ws(DateTimeValue(DateTime((UInt64) utc)).ToString())).c_str(), (int) off, tz.c_str());
		if ((int64_t) DateTimeValue(DateTime((UInt64) utc)).ToLocalTime().value != now || (int64_t) DateTimeValue(DateTime((UInt64) now)).ToUniversalTime().value != utc)
			c.fail("conversions of the present disagree with it at %s UTC (TZ=%s)", narrow(ws(DateTimeValue(DateTime((UInt64) utc)).ToString())).c_str(), tz.c_str());
	}
}
