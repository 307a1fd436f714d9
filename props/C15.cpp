// C15: dates follow the proleptic Gregorian calendar over the whole range.
#include "values.h"
PBT_MAIN("C15", "A case is one whole calendar year (every year 1 to 9999 is walked, every day of it), an instant (ends of the range, of days, months, years and centuries, uniform), a combination of parts inside, at the edge of or outside its ranges, or a raw tick value; "
	"the oracle is an independent day count of the Gregorian calendar. Non-trivial: an accepted date after the first day, or a rejected request; distinct by generated choices.")
namespace {
std::string show(int64_t t) {
	int64_t y;
	int m, d;
	civilFromDays(t / kTicksPerDay, y, m, d);
	int64_t s = t % kTicksPerDay / 10000000;
	char b[96];
	snprintf(b, sizeof b, "%04lld-%02d-%02d %02d:%02d:%02d.%07lld", (long long) y, m, d, (int) (s / 3600), (int) (s / 60 % 60), (int) (s % 60), (long long) (t % 10000000));
	return b;
}
// All parts of one instant.
void checkParts(Case& c, int64_t t) {
	int64_t y;
	int m, d;
	int64_t day = t / kTicksPerDay, tod = t % kTicksPerDay;
	civilFromDays(day, y, m, d);
	DateTimeValue v((DateTime((UInt64) t)));
	struct {
		const char* name;
		int64_t got, want;
	} p[] = {{"Ticks", v.get_Ticks(), t}, {"Year", v.get_Year(), y}, {"Month", v.get_Month(), m}, {"Day", v.get_Day(), d}, {"DayOfYear", v.get_DayOfYear(), day - daysFromCivil(y, 1, 1) + 1},
		{"DayOfWeek", (int64_t) v.get_DayOfWeek(), (day + 1) % 7}, {"Hour", v.get_Hour(), tod / 36000000000LL}, {"Minute", v.get_Minute(), tod / 600000000LL % 60},
		{"Second", v.get_Second(), tod / 10000000 % 60}, {"Millisecond", v.get_Millisecond(), tod / 10000 % 1000}, {"TimeOfDay", v.get_TimeOfDay().value, tod},
		{"Date", (int64_t) v.get_Date().value, day * kTicksPerDay}, {"get_AsDateTime", (int64_t) v.get_AsDateTime().value, t}, {"GetDatePart(year)", v.GetDatePart(DatePartYear), y},
		{"GetDatePart(day of year)", v.GetDatePart(DatePartDayOfYear), day - daysFromCivil(y, 1, 1) + 1}, {"GetDatePart(month)", v.GetDatePart(DatePartMonth), m}, {"GetDatePart(day)", v.GetDatePart(DatePartDay), d}};
	for (auto& q : p)
		if (q.got != q.want)
			c.fail("%s of %s is %lld, expected %lld", q.name, show(t).c_str(), (long long) q.got, (long long) q.want);
	Int32 a = -1, b = -1, e = -1;
	v.GetDatePart(a, b, e);
	if (a != y || b != m || e != d)
		c.fail("GetDatePart of %s gave %d-%d-%d", show(t).c_str(), a, b, e);
	DateTime back((Int32) y, (Int32) m, (Int32) d, (Int32) (tod / 36000000000LL), (Int32) (tod / 600000000LL % 60), (Int32) (tod / 10000000 % 60), (Int32) (tod / 10000 % 1000));
	if ((int64_t) back.value != t - t % 10000)
		c.fail("constructing %s from its parts gave %s", show(t).c_str(), show((int64_t) back.value).c_str());
	if (v.get_Ticks() != t)
		c.fail("reading the parts changed the date");
}
int part(Case& c, int lo, int hi) { return c.chance(1, 7) ? (c.coin() ? (int) c.edge(INT32_MIN, INT32_MAX) : (c.coin() ? lo - 1 - (int) c.draw(2) : hi + 1 + (int) c.draw(2))) : c.chance(1, 4) ? (c.coin() ? hi : lo) : (int) c.range(lo, hi); }
}
PBT_PROP(every_day_of_every_year, 100) {
	int64_t y = 1 + (int64_t) c.enumerate(9999);
	c.note("every day of year %lld", (long long) y);
	c.nontrivial();
	if ((bool) DateTimeValue::IsLeapYear((Int32) y) != leapYear(y))
		c.fail("IsLeapYear(%lld)", (long long) y);
	int64_t first = daysFromCivil(y, 1, 1), n = 0;
	for (int m = 1; m <= 12; ++m) {
		if (DateTimeValue::DaysInMonth((Int32) y, m) != monthLength(y, m))
			c.fail("DaysInMonth(%lld, %d) is %d", (long long) y, m, DateTimeValue::DaysInMonth((Int32) y, m));
		for (int d = 1; d <= monthLength(y, m); ++d, ++n) {
			int64_t t = (first + n) * kTicksPerDay;
			DateTime made((Int32) y, m, d);
			if ((int64_t) made.value != t)
				c.fail("DateTime(%lld, %d, %d) has %lld ticks, expected %lld", (long long) y, m, d, (long long) made.value, (long long) t);
			DateTimeValue v(made), w((DateTime((UInt64) (t + kTicksPerDay - 1))));
			if (v.get_Year() != y || v.get_Month() != m || v.get_Day() != d || v.get_DayOfYear() != n + 1 || (int64_t) v.get_DayOfWeek() != (first + n + 1) % 7)
				c.fail("parts of %s", show(t).c_str());
			if (w.get_Year() != y || w.get_Month() != m || w.get_Day() != d || w.get_DayOfYear() != n + 1 || (int64_t) w.get_DayOfWeek() != (first + n + 1) % 7)
				c.fail("parts of %s", show(t + kTicksPerDay - 1).c_str());
		}
		if (tryCall([&] { DateTime bad((Int32) y, m, monthLength(y, m) + 1); }) == ExNone || tryCall([&] { DateTime bad((Int32) y, m, 0); }) == ExNone)
			c.fail("a day past month %d of year %lld was accepted", m, (long long) y);
	}
}
PBT_PROP(instants, 6000) {
	int64_t t = genDateTicks(c);
	c.note("%s", show(t).c_str());
	if (t >= kTicksPerDay)
		c.nontrivial();
	checkParts(c, t);
}
PBT_PROP(parts, 5000) {
	int y = part(c, 1, 9999), m = part(c, 1, 12), d = part(c, 1, c.coin() ? 28 : 31), h = 0, mi = 0, s = 0, ms = 0;
	int given = 3 + (int) c.draw(5);
	if (given > 3)
		h = part(c, 0, 23);
	if (given > 4)
		mi = part(c, 0, 59);
	if (given > 5)
		s = part(c, 0, 59);
	if (given > 6)
		ms = part(c, 0, 999);
	if (y >= 1 && y <= 9999 && m >= 1 && m <= 12 && c.chance(1, 3))
		d = monthLength(y, m) + (int) c.draw(2);
	c.note("DateTime(%d, %d, %d, %d, %d, %d, %d)", y, m, d, h, mi, s, ms);
	bool ok = y >= 1 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= monthLength(y, m) && h >= 0 && h < 24 && mi >= 0 && mi < 60 && s >= 0 && s < 60 && ms >= 0 && ms < 1000;
	DateTime made;
	Ex e = tryCall([&] {
		switch (given) {
		case 3:
			made = DateTime(y, m, d);
			break;
		case 4:
			made = DateTime(y, m, d, h);
			break;
		case 5:
			made = DateTime(y, m, d, h, mi);
			break;
		case 6:
			made = DateTime(y, m, d, h, mi, s);
			break;
		default:
			made = DateTime(y, m, d, h, mi, s, ms);
		}
	});
	c.nontrivial();
	c.label(ok ? "accepted" : "rejected");
	if (ok != (e == ExNone))
		c.fail("ended with %s", exName(e));
	if (!ok) {
		if (e != ExArgumentOutOfRange)
			c.fail("rejected with %s", exName(e));
		return;
	}
	int64_t want = daysFromCivil(y, m, d) * kTicksPerDay + ((h * 60LL + mi) * 60 + s) * 10000000LL + ms * 10000LL;
	if ((int64_t) made.value != want)
		c.fail("made %s", show((int64_t) made.value).c_str());
	checkParts(c, want);
}
PBT_PROP(ticks, 3500) {
	uint64_t t = c.chance(1, 3) ? (uint64_t) genDateTicks(c) : c.coin() ? (uint64_t) (kMaxDateTicks + c.near0(-3, 3)) : c.uedge(0, UINT64_MAX);
	c.note("DateTime(%llu ticks)", (unsigned long long) t);
	if (t)
		c.nontrivial();
	DateTime made;
	Ex e = tryCall([&] { made = DateTime((UInt64) t); });
	bool ok = t <= (uint64_t) kMaxDateTicks;
	c.label(ok ? "accepted" : "rejected");
	if (ok ? e != ExNone : e != ExArgumentOutOfRange)
		c.fail("ended with %s", exName(e));
	if (ok && (made.value != t || DateTime(made).value != t || DateTimeValue(made).get_Ticks() != (int64_t) t))
		c.fail("the ticks are not kept");
}
PBT_PROP(years_and_months, 3000) {
	int y = c.chance(1, 3) ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) c.range(-3, 10003), m = c.chance(1, 5) ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) c.range(-1, 14);
	c.note("year %d month %d", y, m);
	bool goodYear = y >= 1 && y <= 9999, good = goodYear && m >= 1 && m <= 12;
	c.nontrivial();
	Boolean leap = false;
	Ex e = tryCall([&] { leap = DateTimeValue::IsLeapYear(y); });
	if (goodYear ? e != ExNone || (bool) leap != leapYear(y) : e != ExArgumentOutOfRange)
		c.fail("IsLeapYear(%d) gave %d, %s", y, leap, exName(e));
	Int32 n = 0;
	e = tryCall([&] { n = DateTimeValue::DaysInMonth(y, m); });
	if (good ? e != ExNone || n != monthLength(y, m) : e != ExArgumentOutOfRange)
		c.fail("DaysInMonth(%d, %d) gave %d, %s", y, m, n, exName(e));
}
PBT_PROP(constants, 1) {
	c.enumerate(1);
	c.nontrivial();
	if (DateTimeValue::MinValue.value != 0 || (int64_t) DateTimeValue::MaxValue.value != kMaxDateTicks || DateTime().value != 0 || DateTimeValue().get_Ticks() != 0)
		c.fail("MinValue or MaxValue");
	checkParts(c, 0);
	checkParts(c, kMaxDateTicks);
}
