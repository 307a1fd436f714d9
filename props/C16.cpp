// C16: date arithmetic is exact, ordered and range-checked.
#include "values.h"
PBT_MAIN("C16", "A case is a date with a chain of additions and subtractions (time spans, ticks, fractional units, months, years; through member and operator forms; amounts small, at the distance to either end of the range +-1, huge, NaN), or a pair of dates compared in every form; "
	"the oracle is 64-bit and calendar arithmetic computed independently. Non-trivial: the date moves, the request is rejected, or the dates compared differ by little; distinct by generated choices.")
namespace {
std::string show(int64_t t) {
	int64_t y;
	int m, d;
	civilFromDays(t / kTicksPerDay, y, m, d);
	int64_t s = t % kTicksPerDay / 10000000;
	char b[96];
	snprintf(b, sizeof b, "%04lld-%02d-%02d %02d:%02d:%02d.%07lld", (long long) y, m, d, (int) (s / 3600), (int) (s / 60 % 60), (int) (s % 60), (long long) (t % 10000000));
	return b;
}
const int64_t kUnits[] = {864000000000LL, 36000000000LL, 600000000LL, 10000000LL, 10000LL};
const char* kUnitNames[] = {"AddDays", "AddHours", "AddMinutes", "AddSeconds", "AddMilliseconds"};
bool inRange(i128 t) { return t >= 0 && t <= (i128) kMaxDateTicks; }
int64_t genDelta(Case& c, int64_t t, int sign) {              // ticks; sign is that of the operation
	switch (c.weighted({3, 4, 3, 2})) {
	case 0:
		return c.near0(-1000000, 1000000);
	case 1:
		return genSpanTicks(c);
	case 2: {                                             // land on or just past an end
		int64_t target = (c.coin() ? kMaxDateTicks : 0) + c.near0(-2, 2);
		return sign * (target - t);
	}
	default:
		return sign * (genDateTicks(c) - t);
	}
}
double genAmount(Case& c, int64_t t, int64_t unit) {
	switch (c.weighted({4, 3, 2, 3, 2})) {
	case 0:
		return (double) c.near0(-4000, 4000) / 2.0;
	case 1:
		return (double) c.near0(-100000000, 100000000) / (double) c.pick({1000LL, 10000LL, 86400LL, 7LL, 24LL});
	case 2:
		return genDouble(c);
	case 3:
		return (double) (genDateTicks(c) - t) / (double) unit;
	default:
		return ((double) ((c.coin() ? kMaxDateTicks : 0) - t) / (double) unit) + (double) c.near0(-2, 2) * 10000.0 / (double) unit;
	}
}
// One step; returns false when it was rejected.
bool step(Case& c, int64_t& t) {
	DateTimeValue v((DateTime((UInt64) t)));
	DateTime r;
	Ex e;
	i128 want = 0;
	char what[160];
	size_t op = c.weighted({3, 2, 2, 3, 3, 2, 4, 3});
	switch (op) {
	case 0:
	case 1:
	case 2: {
		int64_t d = genDelta(c, t, 1);
		snprintf(what, sizeof what, "%s + %s %lld", show(t).c_str(), op == 0 ? "Add(span)" : op == 1 ? "AddTicks" : "op_Addition", (long long) d);
		c.note("%s", what);
		e = tryCall([&] { r = op == 0 ? v.Add(TimeSpan((Int64) d)) : op == 1 ? v.AddTicks(d) : DateTimeValue::op_Addition(DateTime((UInt64) t), TimeSpan((Int64) d)); });
		want = (i128) t + d;
		break;
	}
	case 3:
	case 4: {
		int64_t d = genDelta(c, t, -1);
		snprintf(what, sizeof what, "%s - %s %lld", show(t).c_str(), op == 3 ? "Subtract(span)" : "op_Subtraction", (long long) d);
		c.note("%s", what);
		e = tryCall([&] { r = op == 3 ? v.Subtract(TimeSpan((Int64) d)) : DateTimeValue::op_Subtraction(DateTime((UInt64) t), TimeSpan((Int64) d)); });
		want = (i128) t - d;
		break;
	}
	case 5:
	case 6: {
		bool years = op == 5;
		int n;
		int64_t y;
		int m, d;
		civilFromDays(t / kTicksPerDay, y, m, d);
		switch (c.weighted({5, 2, 2})) {
		case 0:
			n = (int) c.near0(-60, 60);
			break;
		case 1:
			n = years ? (int) ((c.coin() ? 9999 : 1) - y + c.near0(-1, 1)) : (int) ((c.coin() ? 9999 * 12 + 11 : 12) - (y * 12 + m - 1) + c.near0(-1, 1));
			break;
		default:
			n = c.coin() ? (int) c.edge(INT32_MIN, INT32_MAX) : years ? (int) c.near0(-10001, 10001) : (int) c.near0(-120001, 120001);
		}
		snprintf(what, sizeof what, "%s %s(%d)", show(t).c_str(), years ? "AddYears" : "AddMonths", n);
		c.note("%s", what);
		e = tryCall([&] { r = years ? v.AddYears(n) : v.AddMonths(n); });
		int64_t total = y * 12 + (m - 1) + (int64_t) n * (years ? 12 : 1);
		int64_t ny = total >= 0 ? total / 12 : -((-total + 11) / 12);
		int nm = (int) (total - ny * 12) + 1;
		if (ny < 1 || ny > 9999)
			want = -1;
		else {
			int nd = std::min(d, monthLength(ny, nm));
			if (nd != d)
				c.label("day clamped");
			want = (i128) daysFromCivil(ny, nm, nd) * kTicksPerDay + t % kTicksPerDay;
		}
		break;
	}
	default: {
		size_t k = (size_t) c.draw(5);
		double a = genAmount(c, t, kUnits[k]);
		int32_t scale = (int32_t) (kUnits[k] / 10000);
		bool raw = c.chance(1, 6);
		snprintf(what, sizeof what, "%s %s(%.17g%s)", show(t).c_str(), raw ? "Add" : kUnitNames[k], a, raw ? ", scale" : "");
		c.note("%s", what);
		e = tryCall([&] {
			if (raw)
				r = v.Add((Double) a, scale);
			else
				r = k == 0 ? v.AddDays(a) : k == 1 ? v.AddHours(a) : k == 2 ? v.AddMinutes(a) : k == 3 ? v.AddSeconds(a) : v.AddMilliseconds(a);
		});
		if (v.get_Ticks() != t)
			c.fail("%s changed the original date", what);
		long double ms = (long double) a * scale, tol = 0.5L + fabsl(ms) * 4e-16L + 1e-9L;
		if (e == ExNone) {
			int64_t diff = (int64_t) r.value - t;
			if (std::isnan(a) || !inRange((i128) r.value) || diff % 10000 != 0 || !(fabsl((long double) (diff / 10000) - ms) <= tol))
				c.fail("%s gave %s, %lld ticks away", what, show((int64_t) r.value).c_str(), (long long) diff);
			if (diff)
				c.nontrivial();
			t = (int64_t) r.value;
			return true;
		}
		c.nontrivial();
		if (e != ExArgumentOutOfRange)
			c.fail("%s ended with %s", what, exName(e));
		long double lo = (long double) t + (ms - tol) * 10000.0L, hi = (long double) t + (ms + tol) * 10000.0L;
		if (!std::isnan(a) && lo >= 0 && hi <= (long double) kMaxDateTicks)
			c.fail("%s was rejected though its result is a date", what);
		c.label("rejected");
		return false;
	}
	}
	if (v.get_Ticks() != t)
		c.fail("%s changed the original date", what);
	if (!inRange(want)) {
		c.nontrivial();
		c.label("rejected");
		if (e != ExArgumentOutOfRange)
			c.fail("%s ended with %s, its result is outside the range", what, exName(e));
		return false;
	}
	if (e != ExNone)
		c.fail("%s ended with %s", what, exName(e));
	if ((i128) r.value != want)
		c.fail("%s gave %s, expected %s", what, show((int64_t) r.value).c_str(), show((int64_t) want).c_str());
	if ((int64_t) r.value != t)
		c.nontrivial();
	t = (int64_t) r.value;
	return true;
}
}
PBT_PROP(chains, 6000) {
	int64_t t = genDateTicks(c);
	c.note("from %s", show(t).c_str());
	size_t n = 1 + c.steps(5, 120);
	for (size_t i = 0; i < n; ++i)
		step(c, t);
}
PBT_PROP(single_steps, 6000) {
	int64_t t = genDateTicks(c);
	step(c, t);
}
PBT_PROP(differences, 4000) {
	int64_t a = genDateTicks(c), b = c.chance(1, 3) ? genDateTicks(c) : c.coin() ? a : std::min<int64_t>(kMaxDateTicks, std::max<int64_t>(0, a + genDelta(c, a, 1) % 1000000000000LL));
	c.note("%s and %s", show(a).c_str(), show(b).c_str());
	if (a != b)
		c.nontrivial();
	DateTime da((UInt64) a), db((UInt64) b);
	DateTimeValue va(da);
	int64_t d1 = va.Subtract(db).value, d2 = DateTimeValue::op_Subtraction(da, db).value;
	if (d1 != a - b || d2 != a - b)
		c.fail("the difference is %lld and %lld, expected %lld", (long long) d1, (long long) d2, (long long) (a - b));
	if ((int64_t) DateTimeValue(db).Add(TimeSpan((Int64) d1)).value != a || (int64_t) va.Subtract(TimeSpan((Int64) d1)).value != b)
		c.fail("the difference does not lead back");
}
PBT_PROP(order, 5000) {
	int64_t a = genDateTicks(c), b = c.weighted({2, 2, 2}) == 0 ? a : c.coin() ? genDateTicks(c) : std::min<int64_t>(kMaxDateTicks, std::max<int64_t>(0, a + c.pick(kUnits) * c.near0(-2, 2) + c.near0(-1, 1)));
	c.note("%s against %s", show(a).c_str(), show(b).c_str());
	c.nontrivial();
	DateTime da((UInt64) a), db((UInt64) b);
	DateTimeValue va(da), vb(db);
	int w = a < b ? -1 : a > b;
	int got[] = {DateTimeValue::Compare(da, db), va.CompareTo(db), va.CompareTo((Object*) &vb), -DateTimeValue::Compare(db, da)};
	for (int g : got)
		if ((g < 0 ? -1 : g > 0) != w)
			c.fail("comparison gave %d %d %d %d, expected %d", got[0], got[1], got[2], got[3], w);
	bool eq[] = {va.Equals(db), DateTimeValue::Equals(da, db), va.Equals((Object*) &vb), (bool) DateTimeValue::op_Equality(da, db), !DateTimeValue::op_Inequality(da, db)};
	for (bool x : eq)
		if (x != (w == 0))
			c.fail("equality forms gave %d %d %d %d %d, expected %d", eq[0], eq[1], eq[2], eq[3], eq[4], w == 0);
	bool rel[] = {(bool) DateTimeValue::op_LessThan(da, db) == (w < 0), (bool) DateTimeValue::op_LessThanOrEqual(da, db) == (w <= 0), (bool) DateTimeValue::op_GreaterThan(da, db) == (w > 0),
		(bool) DateTimeValue::op_GreaterThanOrEqual(da, db) == (w >= 0)};
	for (bool x : rel)
		if (!x)
			c.fail("a relational operator is wrong (<, <=, >, >=): %d %d %d %d", rel[0], rel[1], rel[2], rel[3]);
	if (va.get_Ticks() != a || vb.get_Ticks() != b)
		c.fail("comparing changed a date");
}
PBT_PROP(foreign_objects, 500) {
	int64_t a = genDateTicks(c);
	DateTimeValue va((DateTime((UInt64) a)));
	Object* o;
	switch (c.draw(6)) {
	case 0:
		o = nullptr;
		break;
	case 1:
		o = new String(L"x");
		break;
	case 2:
		o = new TimeSpanValue(TimeSpan((Int64) a));
		break;
	case 3:
		o = new Int64Value(a);
		break;
	case 4:
		o = new Object();
		break;
	default:
		o = new StringBuilder();
	}
	c.note("%s against %s", show(a).c_str(), o ? "another kind of object" : "null");
	c.nontrivial();
	int r = 0;
	Ex e = tryCall([&] { r = va.CompareTo(o); });
	if (o ? e != ExArgument : e != ExNone || r <= 0)
		c.fail("CompareTo gave %d, %s", r, exName(e));
	bool q = true;
	e = tryCall([&] { q = va.Equals(o); });
	if (e != ExNone || q)
		c.fail("Equals gave %d, %s", q, exName(e));
	delete o;
}
