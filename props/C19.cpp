// C19: date text shows the calendar date and 12-hour time exactly.
#include "values.h"
PBT_MAIN("C19", "A case is an instant (every second of a day is walked; every day of the calendar is walked; ends of days, months, years and the range; uniform) printed through every text route, or a pair of nearby instants; the oracle is an independent calendar and formatter, and the text is read back to the second. "
	"Non-trivial: the date is after the first day or has a time of day; distinct by generated choices.")
namespace {
WS text(int64_t t) {
	int64_t y;
	int m, d;
	civilFromDays(t / kTicksPerDay, y, m, d);
	int64_t s = t % kTicksPerDay / 10000000;
	int h = (int) (s / 3600);
	char b[64];
	snprintf(b, sizeof b, "%d/%d/%lld %d:%02d:%02d %s", m, d, (long long) y, h > 12 ? h - 12 : h, (int) (s / 60 % 60), (int) (s % 60), h >= 12 ? "PM" : "AM");
	return wide(b);
}
// The second a text stands for, or -1.
int64_t readBack(const WS& w) {
	int m, d, y, h, mi, s, n = 0;
	char ap;
	std::string t = narrow(w);
	if (sscanf(t.c_str(), "%d/%d/%d %d:%2d:%2d %cM%n", &m, &d, &y, &h, &mi, &s, &ap, &n) != 7 || n != (int) t.size())
		return -1;
	if (m < 1 || m > 12 || d < 1 || d > monthLength(y, m))
		return -1;
	if (ap == 'P' ? h < 12 && (h += 12, false) : h == 12 && (h = 0, false))
		return -1;
	return daysFromCivil(y, m, d) * 86400 + h * 3600 + mi * 60 + s;
}
void one(Case& c, int64_t t) {
	WS want = text(t);
	DateTimeValue v((DateTime((UInt64) t)));
	Char buf[64];
	Int32 n = v.FormatString(buf, 64);
	if (n != (Int32) want.size() || WS(buf) != want)
		c.fail("%lld ticks print as %s (%d), expected %s", (long long) t, show(WS(buf)).c_str(), n, show(want).c_str());
	if (readBack(WS(buf)) != t / 10000000)
		c.fail("%s does not read back", show(want).c_str());
}
}
PBT_PROP(every_text_route, 4000) {
	int64_t t = genDateTicks(c);
	WS want = text(t);
	c.note("%lld ticks, %s", (long long) t, narrow(want).c_str());
	if (t)
		c.nontrivial();
	one(c, t);
	DateTime dt((UInt64) t);
	DateTimeValue v(dt);
	String* s = v.ToString();
	expectStr(c, "ToString", s, want);
	if (readBack(ws(s)) != t / 10000000)
		c.fail("%s does not read back", show(ws(s)).c_str());
	WS head = genStr(c, 5, 1);
	String* h = mk(head);
	StringBuilder sb;
	sb.Append(h);
	sb.Append((Object*) &v);
	String* s2 = sb.ToString();
	expectStr(c, "StringBuilder::Append", s2, head + want);
	StringBuilder si(h);
	si.Insert((Int32) (head.size() / 2), (Object*) &v);
	String* s3 = si.ToString();
	expectStr(c, "StringBuilder::Insert", s3, head.substr(0, head.size() / 2) + want + head.substr(head.size() / 2));
	StringBuilder sv;
	sv.Append((ValueType&) v);
	String* s6 = sv.ToString();
	expectStr(c, "StringBuilder::Append(ValueType)", s6, want);
	delete s6;
	String* s4 = String::Concat((Object*) h, (Object*) &v);
	expectStr(c, "Concat", s4, head + want);
	Array* a = mkObjs({&v, h, &v});
	String* s5 = String::Join(h, a);
	expectStr(c, "Join", s5, want + head + head + head + want);
	if (v.get_Ticks() != t)
		c.fail("printing changed the date");
	delete s;
	delete s2;
	delete s3;
	delete s4;
	delete s5;
	delete h;
	delete a;
}
PBT_PROP(every_second_of_a_day, 1440 / 100 + 1) {
	int64_t minute = (int64_t) c.enumerate(1440), day = (int64_t) c.draw(3652059);
	c.note("every second of minute %lld of day %lld", (long long) minute, (long long) day);
	c.nontrivial();
	for (int s = 0; s < 60; ++s)
		one(c, day * kTicksPerDay + (minute * 60 + s) * 10000000LL + (s % 3 == 0 ? 0 : s % 3 == 1 ? 9999999 : 1));
}
PBT_PROP(every_day, 100) {
	int64_t y = 1 + (int64_t) c.enumerate(9999), tod = genTimeOfDay(c);
	c.note("every day of year %lld at %lld ticks", (long long) y, (long long) tod);
	c.nontrivial();
	int n = leapYear(y) ? 366 : 365;
	for (int k = 0; k < n; k += 1 + (int) (k > 2 && k < n - 3) * (int) (y % 5 != 0) * 2)
		one(c, (daysFromCivil(y, 1, 1) + k) * kTicksPerDay + tod);
}
PBT_PROP(different_seconds_print_differently, 4000) {
	int64_t a = genDateTicks(c);
	static const int64_t gaps[] = {10000000LL, 600000000LL, 36000000000LL, 43200LL * 10000000, 864000000000LL, 31LL * 864000000000LL, 365LL * 864000000000LL, 366LL * 864000000000LL};
	int64_t b = c.chance(1, 4) ? genDateTicks(c) : a + c.pick(gaps) * c.near0(-2, 2) + c.near0(-1, 1);
	if (b < 0 || b > kMaxDateTicks)
		b = a;
	c.note("%lld and %lld ticks", (long long) a, (long long) b);
	c.nontrivial();
	Char x[64], y[64];
	DateTimeValue((DateTime((UInt64) a))).FormatString(x, 64);
	DateTimeValue((DateTime((UInt64) b))).FormatString(y, 64);
	if ((a / 10000000 == b / 10000000) != (WS(x) == WS(y)))
		c.fail("print as %s and %s", show(WS(x)).c_str(), show(WS(y)).c_str());
}
