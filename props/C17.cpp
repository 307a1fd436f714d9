// C17: time spans are exact 64-bit tick counts with checked arithmetic.
#include "values.h"
PBT_MAIN("C17", "A case is a span over the full 64-bit tick range (unit multiples +-1, limits, uniform) whose parts and totals are read, a construction from parts or from a number of units, a chain of arithmetic steps (amounts small, at the distance to either limit +-1, uniform; factors integral, fractional, tiny, huge, NaN, infinite), or a comparison in every form; "
	"the oracle is 128-bit integer and extended-precision arithmetic. Non-trivial: the span is not zero, or the request is rejected; distinct by generated choices.")
namespace {
const int64_t kU[] = {10000LL, 10000000LL, 600000000LL, 36000000000LL, 864000000000LL};
bool fits(i128 v) { return v >= INT64_MIN && v <= INT64_MAX; }
TimeSpan S(int64_t t) { return TimeSpan((Int64) t); }
void checkParts(Case& c, int64_t t) {
	TimeSpanValue v(S(t));
	int64_t p[] = {v.get_Days(), v.get_Hours(), v.get_Minutes(), v.get_Seconds(), v.get_Milliseconds()};
	int64_t w[] = {t / kU[4], t / kU[3] % 24, t / kU[2] % 60, t / kU[1] % 60, t / kU[0] % 1000};
	static const char* n[] = {"Days", "Hours", "Minutes", "Seconds", "Milliseconds"};
	for (int i = 0; i < 5; ++i)
		if (p[i] != w[i])
			c.fail("%s of %lld ticks is %lld, expected %lld", n[i], (long long) t, (long long) p[i], (long long) w[i]);
	i128 sum = (((i128) p[0] * 24 + p[1]) * 60 + p[2]) * 60 + p[3];
	sum = (sum * 1000 + p[4]) * 10000 + t % 10000;
	if (sum != (i128) t || v.get_Ticks() != t || v.get_AsTimeSpan().value != t)
		c.fail("the parts of %lld ticks do not recombine", (long long) t);
	double tot[] = {v.get_TotalMilliseconds(), v.get_TotalSeconds(), v.get_TotalMinutes(), v.get_TotalHours(), v.get_TotalDays()};
	static const char* tn[] = {"TotalMilliseconds", "TotalSeconds", "TotalMinutes", "TotalHours", "TotalDays"};
	for (int i = 0; i < 5; ++i) {
		long double e = (long double) t / kU[i];
		if (i == 0 && fabsl(e) > 922337203685477.0L && fabs(tot[0]) == 922337203685477.0)
			continue;                             // documented clamp of the total milliseconds
		if (!(fabsl(tot[i] - e) <= fabsl(e) * 5e-16L))
			c.fail("%s of %lld ticks is %.17g, expected %.17Lg", tn[i], (long long) t, tot[i], e);
	}
}
double genFactor(Case& c) {
	switch (c.weighted({4, 3, 2, 2})) {
	case 0:
		return (double) c.near0(-20, 20) / 4.0;
	case 1:
		return (double) c.near0(-100000, 100000) / (double) c.pick({1LL, 3LL, 7LL, 1000LL, 100000LL});
	case 2:
		return genDouble(c);
	default:
		return ldexp(1.0 + (double) c.draw(1000) / 1000.0, (int) c.near0(-70, 70)) * (c.coin() ? -1 : 1);
	}
}
// Result of rounding or truncating exact to a tick count, allowing for the given relative error of the computation.
void checkScaled(Case& c, const char* what, long double exact, bool truncate, Ex e, int64_t got, Ex nanKind) {
	const long double lim = 9223372036854775808.0L;
	long double err = fabsl(exact) * 4e-16L;
	if (std::isnan(exact)) {
		c.nontrivial();
		if (e != nanKind && e != ExOverflow)
			c.fail("%s ended with %s", what, exName(e));
		return;
	}
	long double lo = exact - err, hi = exact + err;
	if (truncate) {
		lo = truncl(lo);
		hi = truncl(hi);
	} else {
		lo = ceill(lo - 0.5L);
		hi = floorl(hi + 0.5L);
	}
	if (e == ExNone) {
		if (got)
			c.nontrivial();
		if (!((long double) got >= lo && (long double) got <= hi) && !(got == INT64_MAX && hi >= lim && lo <= lim))
			c.fail("%s gave %lld ticks, expected %.20Lg", what, (long long) got, exact);
	} else {
		c.nontrivial();
		c.label("overflow");
		if (e != ExOverflow)
			c.fail("%s ended with %s", what, exName(e));
		if (lo >= -lim && hi < lim)
			c.fail("%s overflowed though the result is %.20Lg ticks", what, exact);
	}
}
int64_t genOperand(Case& c, int64_t t, int sign) {
	switch (c.weighted({3, 3, 3})) {
	case 0:
		return genSpanTicks(c);
	case 1: {                                             // land on or next to a limit
		i128 d = (i128) (c.coin() ? INT64_MAX : INT64_MIN) + c.near0(-2, 2) - t;
		d *= sign;
		return fits(d) ? (int64_t) d : d > 0 ? INT64_MAX : INT64_MIN;
	}
	default:
		return c.near0(-1000000, 1000000);
	}
}
bool step(Case& c, int64_t& t) {
	char what[200];
	TimeSpanValue v(S(t));
	TimeSpan r;
	Ex e;
	i128 want;
	switch (c.weighted({4, 4, 2, 2, 4, 4})) {
	case 0: {
		int64_t d = genOperand(c, t, 1);
		bool op = c.coin();
		snprintf(what, sizeof what, "%lld %s %lld", (long long) t, op ? "op_Addition" : "Add", (long long) d);
		c.note("%s", what);
		e = tryCall([&] { r = op ? TimeSpanValue::op_Addition(S(t), S(d)) : v.Add(S(d)); });
		want = (i128) t + d;
		break;
	}
	case 1: {
		int64_t d = genOperand(c, t, -1);
		bool op = c.coin();
		snprintf(what, sizeof what, "%lld %s %lld", (long long) t, op ? "op_Subtraction" : "Subtract", (long long) d);
		c.note("%s", what);
		e = tryCall([&] { r = op ? TimeSpanValue::op_Subtraction(S(t), S(d)) : v.Subtract(S(d)); });
		want = (i128) t - d;
		break;
	}
	case 2: {
		size_t k = (size_t) c.draw(3);
		snprintf(what, sizeof what, "%s %lld", k == 0 ? "Negate" : k == 1 ? "op_UnaryNegation" : "op_UnaryPlus", (long long) t);
		c.note("%s", what);
		e = tryCall([&] { r = k == 0 ? v.Negate() : k == 1 ? TimeSpanValue::op_UnaryNegation(S(t)) : TimeSpanValue::op_UnaryPlus(S(t)); });
		want = k == 2 ? (i128) t : -(i128) t;
		break;
	}
	case 3:
		snprintf(what, sizeof what, "Duration %lld", (long long) t);
		c.note("%s", what);
		e = tryCall([&] { r = v.Duration(); });
		want = t < 0 ? -(i128) t : (i128) t;
		break;
	case 4: {
		double f = genFactor(c);
		size_t k = (size_t) c.draw(3);
		snprintf(what, sizeof what, "%lld %s %.17g", (long long) t, k == 0 ? "Multiply" : k == 1 ? "op_Multiply" : "op_Multiply (number first)", f);
		c.note("%s", what);
		e = tryCall([&] { r = k == 0 ? v.Multiply(f) : k == 1 ? TimeSpanValue::op_Multiply(S(t), f) : TimeSpanValue::op_Multiply(f, S(t)); });
		checkScaled(c, what, (long double) t * f, false, e, r.value, ExArgument);
		if (v.get_Ticks() != t)
			c.fail("%s changed the original span", what);
		if (e == ExNone)
			t = r.value;
		return e == ExNone;
	}
	default: {
		double f = genFactor(c);
		bool op = c.coin();
		snprintf(what, sizeof what, "%lld %s %.17g", (long long) t, op ? "op_Division" : "Divide", f);
		c.note("%s", what);
		e = tryCall([&] { r = op ? TimeSpanValue::op_Division(S(t), (const Double&) f) : v.Divide((Double) f); });
		checkScaled(c, what, (long double) t / f, false, e, r.value, ExArgument);
		if (v.get_Ticks() != t)
			c.fail("%s changed the original span", what);
		if (e == ExNone)
			t = r.value;
		return e == ExNone;
	}
	}
	if (v.get_Ticks() != t)
		c.fail("%s changed the original span", what);
	if (!fits(want)) {
		c.nontrivial();
		c.label("overflow");
		if (e != ExOverflow)
			c.fail("%s ended with %s, its result does not fit", what, exName(e));
		return false;
	}
	if (e != ExNone || r.value != (int64_t) want)
		c.fail("%s gave %lld, %s, expected %lld", what, (long long) r.value, exName(e), (long long) (int64_t) want);
	if (r.value)
		c.nontrivial();
	t = r.value;
	return true;
}
}
PBT_PROP(components, 6000) {
	int64_t t = genSpanTicks(c);
	c.note("%lld ticks", (long long) t);
	if (t)
		c.nontrivial();
	checkParts(c, t);
}
PBT_PROP(arithmetic, 7000) {
	int64_t t = genSpanTicks(c);
	size_t n = 1 + c.steps(4, 120);
	for (size_t i = 0; i < n; ++i)
		step(c, t);
}
PBT_PROP(ratio, 2000) {
	int64_t a = genSpanTicks(c), b = c.chance(1, 4) ? c.near0(-3, 3) : genSpanTicks(c);
	bool op = c.coin();
	c.note("%lld / %lld", (long long) a, (long long) b);
	c.nontrivial();
	double r = op ? TimeSpanValue::op_Division(S(a), S(b)) : TimeSpanValue(S(a)).Divide(S(b));
	if (b == 0) {
		if (a == 0 ? !std::isnan(r) : !(std::isinf(r) && (r > 0) == (a > 0)))
			c.fail("gave %g", r);
	}
	else if (!(fabsl(r - (long double) a / b) <= fabsl((long double) a / b) * 6e-16L))
		c.fail("gave %.17g, expected %.17Lg", r, (long double) a / b);
}
PBT_PROP(from_units, 5000) {
	static const char* n[] = {"FromMilliseconds", "FromSeconds", "FromMinutes", "FromHours", "FromDays", "Interval"};
	size_t k = (size_t) c.draw(6);
	double scale = k < 5 ? (double) kU[k] : c.coin() ? (double) kU[c.draw(5)] : (double) c.range(1, 1000000);
	double v;
	switch (c.weighted({3, 3, 2, 2})) {
	case 0:
		v = (double) c.near0(-10000, 10000) / (double) c.pick({1LL, 2LL, 10LL, 1000LL, 10000LL});
		break;
	case 1:
		v = (double) genSpanTicks(c) / scale;
		break;
	case 2:
		v = (c.coin() ? 9223372036854775807.0 : -9223372036854775808.0) / scale * (1.0 + (double) c.near0(-2, 2) * 2.3e-16);
		break;
	default:
		v = genDouble(c);
	}
	c.note("%s(%.17g)", n[k], v);
	char what[100];
	snprintf(what, sizeof what, "%s(%.17g)", n[k], v);
	TimeSpan r;
	Ex e = tryCall([&] {
		switch (k) {
		case 0:
			r = TimeSpanValue::FromMilliseconds(v);
			break;
		case 1:
			r = TimeSpanValue::FromSeconds(v);
			break;
		case 2:
			r = TimeSpanValue::FromMinutes(v);
			break;
		case 3:
			r = TimeSpanValue::FromHours(v);
			break;
		case 4:
			r = TimeSpanValue::FromDays(v);
			break;
		default:
			r = TimeSpanValue::Interval(v, scale);
		}
	});
	checkScaled(c, what, (long double) v * scale, true, e, r.value, ExArgument);
}
PBT_PROP(from_parts, 4000) {
	bool five = c.chance(3, 4);
	auto gen = [&](int lim) { return c.chance(1, 4) ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) c.near0(-lim, lim); };
	int d = five ? c.chance(1, 4) ? (int) (c.coin() ? 10675199 : -10675199) + (int) c.near0(-1, 1) : gen(20000) : 0, h = gen(30), m = gen(70), s = gen(70), ms = five && c.coin() ? gen(1100) : 0;
	if (!five && c.chance(1, 4)) {
		h = (int) (c.coin() ? 256204778 : -256204778);
		m = (int) c.near0(-50, 50);
	}
	bool defaulted = five && ms == 0 && c.coin();
	c.note(five ? "TimeSpan(%d, %d, %d, %d, %d)" : "TimeSpan(%d: %d, %d, %d, %d)", d, h, m, s, ms);
	i128 want = ((((i128) d * 24 + h) * 60 + m) * 60 + s) * 10000000 + (i128) ms * 10000;
	TimeSpan r;
	Ex e = tryCall([&] { r = !five ? TimeSpan(h, m, s) : defaulted ? TimeSpan(d, h, m, s) : TimeSpan(d, h, m, s, ms); });
	if (!fits(want)) {
		c.nontrivial();
		c.label("rejected");
		if (e == ExNone)
			c.fail("accepted parts of %s ticks as %lld", dec(want).c_str(), (long long) r.value);
		if (e != ExArgumentOutOfRange)
			c.fail("rejected with %s", exName(e));
		return;
	}
	if (want)
		c.nontrivial();
	if (e != ExNone || r.value != (int64_t) want)
		c.fail("gave %lld, %s, expected %lld", (long long) r.value, exName(e), (long long) (int64_t) want);
	checkParts(c, r.value);
}
PBT_PROP(order, 4000) {
	int64_t a = genSpanTicks(c), b;
	switch (c.weighted({2, 3, 3})) {
	case 0:
		b = a;
		break;
	case 1: {
		i128 x = (i128) a + (i128) c.pick(kU) * c.near0(-2, 2) + c.near0(-1, 1);
		b = fits(x) ? (int64_t) x : a;
		break;
	}
	default:
		b = genSpanTicks(c);
	}
	c.note("%lld against %lld", (long long) a, (long long) b);
	c.nontrivial();
	TimeSpan sa = S(a), sb = S(b);
	TimeSpanValue va(sa), vb(sb);
	int w = a < b ? -1 : a > b;
	int got[] = {TimeSpanValue::Compare(sa, sb), va.CompareTo(sb), va.CompareTo((Object*) &vb), -TimeSpanValue::Compare(sb, sa)};
	for (int g : got)
		if ((g < 0 ? -1 : g > 0) != w)
			c.fail("comparison gave %d %d %d %d, expected %d", got[0], got[1], got[2], got[3], w);
	bool eq[] = {(bool) va.Equals(sb), (bool) TimeSpanValue::Equals(sa, sb), (bool) va.Equals((Object*) &vb), (bool) TimeSpanValue::op_Equality(sa, sb), !TimeSpanValue::op_Inequality(sa, sb)};
	for (bool x : eq)
		if (x != (w == 0))
			c.fail("equality forms gave %d %d %d %d %d, expected %d", eq[0], eq[1], eq[2], eq[3], eq[4], w == 0);
	if ((bool) TimeSpanValue::op_LessThan(sa, sb) != (w < 0) || (bool) TimeSpanValue::op_LessThanOrEqual(sa, sb) != (w <= 0) || (bool) TimeSpanValue::op_GreaterThan(sa, sb) != (w > 0)
		|| (bool) TimeSpanValue::op_GreaterThanOrEqual(sa, sb) != (w >= 0))
		c.fail("a relational operator is wrong");
	Object* o = c.coin() ? nullptr : c.coin() ? (Object*) new Int64Value(a) : (Object*) new String(L"x");
	int r = 0;
	Ex e = tryCall([&] { r = va.CompareTo(o); });
	if (o ? e != ExArgument : e != ExNone || r <= 0)
		c.fail("CompareTo(%s) gave %d, %s", o ? "another kind" : "null", r, exName(e));
	if (va.Equals(o))
		c.fail("equal to %s", o ? "another kind" : "null");
	delete o;
	if (va.get_Ticks() != a || vb.get_Ticks() != b || TimeSpanValue::FromTicks(a).value != a)
		c.fail("a span changed");
}
PBT_PROP(constants, 1) {
	c.enumerate(1);
	c.nontrivial();
	if (TimeSpanValue::MinValue.value != INT64_MIN || TimeSpanValue::MaxValue.value != INT64_MAX || TimeSpanValue::Zero.value != 0 || TimeSpanValue::TicksPerMillisecond != kU[0] || TimeSpanValue::TicksPerSecond != kU[1]
		|| TimeSpanValue::TicksPerMinute != kU[2] || TimeSpanValue::TicksPerHour != kU[3] || TimeSpanValue::TicksPerDay != kU[4] || TimeSpanValue().get_Ticks() != 0 || TimeSpan().value != 0)
		c.fail("a constant is wrong");
	checkParts(c, INT64_MIN);
	checkParts(c, INT64_MAX);
}
