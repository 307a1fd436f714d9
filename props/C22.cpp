// C22: floating rounding and mathematics match IEEE and C# definitions.
#include "values.h"
#include <cfenv>
PBT_MAIN("C22", "A case is an operation on one to three floating operands (special values, halves and their neighbours, decimal fractions, powers of two, subnormals, uniform bit patterns; pairs often equal, opposite or adjacent), with digit counts, modes, exponents and bounds inside and outside their ranges; "
	"the oracle is the rule stated for the operation, evaluated with bit manipulation, extended precision or the platform's function. Non-trivial: an operand is neither zero nor an integer, or the request is rejected; distinct by generated choices.")
namespace {
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || doubleToBits(a) == doubleToBits(b); }
bool sameValue(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
bool close(double a, double b) {                               // a few units in the last place
	if (std::isnan(a) || std::isnan(b))
		return std::isnan(a) && std::isnan(b);
	if (a == b)
		return true;
	int64_t x = (int64_t) doubleToBits(a), y = (int64_t) doubleToBits(b);
	return (x < 0) == (y < 0) && llabs(x - y) <= 4;
}
void interesting(Case& c, double d) {
	if (d != 0 && d != rint(d))
		c.nontrivial();
}
void expectSame(Case& c, const char* what, double got, double want) {
	if (!same(got, want))
		c.fail("%s is %.17g (%016llx), expected %.17g (%016llx)", what, got, (unsigned long long) doubleToBits(got), want, (unsigned long long) doubleToBits(want));
}
// A number near a rounding boundary.
double genHalf(Case& c) {
	double d = ((double) c.edge(-(1LL << 53), 1LL << 53) + 0.5 * (double) c.draw(2)) * ldexp(1, -(int) c.draw(3));
	return bitsToDouble(doubleToBits(d) + (uint64_t) c.near0(-1, 1));
}
double genNum(Case& c) { return c.chance(1, 3) ? genHalf(c) : genDouble(c); }
double genOther(Case& c, double a) {
	switch (c.weighted({4, 1, 1, 1, 2})) {
	case 0:
		return genNum(c);
	case 1:
		return a;
	case 2:
		return -a;
	case 3:
		return bitsToDouble(doubleToBits(a) + (uint64_t) c.near0(-2, 2));
	default:
		return c.pick({0.0, -0.0, (double) INFINITY, (double) -INFINITY, (double) NAN, 1.0, -1.0, 2.0, 0.1, 3.0});
	}
}
std::string two(const char* n, double a, double b) {
	char t[120];
	snprintf(t, sizeof t, "%s(%.17g, %.17g)", n, a, b);
	return t;
}
// Rounds with the bits of the number; ties to even.
double refRoundEven(double v) {
	if (!(fabs(v) < 4503599627370496.0))
		return v;
	double a = fabs(v);
	uint64_t i = (uint64_t) a;
	double f = a - (double) i;
	if (f > 0.5 || (f == 0.5 && (i & 1)))
		++i;
	return copysign((double) i, v);
}
}
PBT_PROP(round_to_integer, 4000) {
	double v = genNum(c);
	c.note("%.17g", v);
	interesting(c, v);
	expectSame(c, "Round", Math::Round(v), refRoundEven(v));
	expectSame(c, "Floor", Math::Floor(v), floor(v));
	expectSame(c, "Ceiling", Math::Ceiling(v), ceil(v));
	expectSame(c, "Truncate", Math::Truncate(v), v < 0 ? ceil(v) : floor(v));
	expectSame(c, "Abs", Math::Abs(v), bitsToDouble(doubleToBits(v) & ~(1ULL << 63)));
	int sg = 9;
	Ex e = tryCall([&] { sg = Math::Sign(v); });
	if (std::isnan(v) ? e != ExArithmetic : e != ExNone || sg != (v < 0 ? -1 : v > 0))
		c.fail("Sign gave %d, %s", sg, exName(e));
	float f = (float) v;
	e = tryCall([&] { sg = Math::Sign((Single) f); });
	if (std::isnan(f) ? e != ExArithmetic : e != ExNone || sg != (f < 0 ? -1 : f > 0))
		c.fail("Sign of the single gave %d, %s", sg, exName(e));
	if (!sameValue(Math::Abs((Single) f), fabs((double) f)))
		c.fail("Abs of the single %.9g", f);
}
PBT_PROP(round_to_digits, 7000) {
	double v = c.coin() ? genNum(c) : (double) (c.near0(-100000000, 100000000) * 5) / (double) c.pick({10LL, 100LL, 1000LL, 10000LL, 1000000LL, 1000000000LL, 100000000000000LL});
	if (c.chance(1, 4))
		v = bitsToDouble(doubleToBits(v) + (uint64_t) c.near0(-1, 1));
	if (c.chance(1, 10))
		v = (c.coin() ? 1e16 : -1e16) * (1 + (double) c.near0(-2, 2) * 1.2e-16);
	int digits = c.chance(1, 8) ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) c.range(0, 16), mode = c.chance(1, 10) ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) c.range(0, 5);
	bool hasMode = c.chance(3, 4);
	if (!hasMode)
		mode = 0;
	bool goodD = digits >= 0 && digits <= 15, goodM = mode >= 0 && mode <= 4;
	c.note("Round(%.17g, %d, %d)%s", v, digits, mode, hasMode ? "" : " (mode omitted)");
	double r = 0;
	Ex e = tryCall([&] { r = hasMode ? Math::Round(v, digits, (MidpointRounding) mode) : Math::Round(v, digits); });
	if (!goodD || !goodM) {
		c.nontrivial();
		c.label("rejected");
		if (e != ExArgument && e != ExArgumentOutOfRange)
			c.fail("ended with %s", exName(e));
		return;
	}
	interesting(c, v);
	if (e != ExNone)
		c.fail("ended with %s", exName(e));
	double want = v;
	if (fabs(v) < 1e16) {
		double p = 1;
		for (int i = 0; i < digits; ++i)
			p *= 10;
		double x = v * p;
		x = mode == 0 ? refRoundEven(x) : mode == 1 ? round(x) : mode == 2 ? trunc(x) : mode == 3 ? floor(x) : ceil(x);
		want = x / p;
	}
	if (!sameValue(r, want))
		c.fail("gave %.17g, expected %.17g", r, want);
	// whatever the arithmetic inside, the result stays within one unit of the last digit and on the right side
	if (fabs(v) < 1e6 && digits <= 8 && !(fabs(r - v) <= (mode < 2 ? 0.5000001 : 1.0000001) * pow(10, -digits) + fabs(v) * 5e-16))
		c.fail("gave %.17g, too far away", r);
}
PBT_PROP(pairs, 7000) {
	double a = genNum(c), b = genOther(c, a);
	if (c.chance(1, 6) && !std::isnan(b)) {                      // a at an odd multiple of half b, often an exact one, and next to it
		b = (double) (float) b;
		a = b * ((double) c.range(0, (1LL << c.range(1, 29)) - 1) + 0.5);
		if (c.chance(1, 4))
			a = bitsToDouble(doubleToBits(a) + (uint64_t) c.near0(-2, 2));
	}
	c.note("%.17g and %.17g", a, b);
	interesting(c, a);
	interesting(c, b);
	bool nan = std::isnan(a) || std::isnan(b);
	auto pickMax = [&](double x, double y, bool mag) {           // IEEE 754-2019 maximum, by value or by magnitude
		if (nan)
			return (double) NAN;
		double p = mag ? fabs(x) : x, q = mag ? fabs(y) : y;
		return p > q ? x : q > p ? y : std::signbit(x) ? y : x;
	};
	auto pickMin = [&](double x, double y, bool mag) {
		if (nan)
			return (double) NAN;
		double p = mag ? fabs(x) : x, q = mag ? fabs(y) : y;
		return p < q ? x : q < p ? y : std::signbit(x) ? x : y;
	};
	expectSame(c, two("Max", a, b).c_str(), Math::Max(a, b), pickMax(a, b, false));
	expectSame(c, two("Min", a, b).c_str(), Math::Min(a, b), pickMin(a, b, false));
	expectSame(c, two("MaxMagnitude", a, b).c_str(), Math::MaxMagnitude(a, b), pickMax(a, b, true));
	expectSame(c, two("MinMagnitude", a, b).c_str(), Math::MinMagnitude(a, b), pickMin(a, b, true));
	double cs = Math::CopySign(a, b);
	if (std::isnan(b) ? !sameValue(fabs(cs), fabs(a)) : std::isnan(a) ? !std::isnan(cs) : !same(cs, copysign(a, b)))
		c.fail("%s is %.17g", two("CopySign", a, b).c_str(), cs);
	double m = DoubleValue::Modulus(a, b);
	expectSame(c, two("Modulus", a, b).c_str(), m, (double) fmodl((long double) a, (long double) b));
	if (!std::isnan(m) && m != 0 && (std::signbit(m) != std::signbit(a) || !(fabs(m) < fabs(b))))
		c.fail("%s is %.17g", two("Modulus", a, b).c_str(), m);
	expectSame(c, two("IEEERemainder", a, b).c_str(), Math::IEEERemainder(a, b), (double) remainderl((long double) a, (long double) b));
	expectSame(c, two("Divide", a, b).c_str(), Math::Divide(a, b), a / b);
	float fa = (float) a, fb = (float) b;
	nan = std::isnan(fa) || std::isnan(fb);
	expectSame(c, two("Max of singles", fa, fb).c_str(), Math::Max((Single) fa, (Single) fb), pickMax(fa, fb, false));
	expectSame(c, two("Min of singles", fa, fb).c_str(), Math::Min((Single) fa, (Single) fb), pickMin(fa, fb, false));
	expectSame(c, two("Modulus of singles", fa, fb).c_str(), SingleValue::Modulus(fa, fb), (float) fmodl(fa, fb));
}
PBT_PROP(clamping, 4000) {
	double v = genNum(c), lo = genOther(c, v), hi = genOther(c, c.coin() ? v : lo);
	if (lo > hi && c.chance(2, 3))
		std::swap(lo, hi);
	bool f = c.chance(1, 3);
	if (f) {
		v = (float) v;
		lo = (float) lo;
		hi = (float) hi;
	}
	c.note("%s %.17g in %.17g..%.17g", f ? "Single" : "Double", v, lo, hi);
	interesting(c, v);
	if (lo > hi)
		c.nontrivial();
	double r = 0;
	Ex e = tryCall([&] { r = f ? (double) Math::Clamp((Single) v, (Single) lo, (Single) hi) : Math::Clamp(v, lo, hi); });
	if (lo > hi) {
		if (e == ExNone)
			c.fail("inverted bounds gave %.17g", r);
		return;
	}
	double want = v < lo ? lo : v > hi ? hi : v;
	if (e != ExNone || !sameValue(r, want))
		c.fail("gave %.17g, %s, expected %.17g", r, exName(e), want);
}
PBT_PROP(bits, 5000) {
	double v = genNum(c);
	int n = c.coin() ? (int) c.near0(-2200, 2200) : (int) c.edge(INT32_MIN, INT32_MAX);
	c.note("%.17g, %d", v, n);
	interesting(c, v);
	if (v != 0)
		c.nontrivial();
	uint64_t b = doubleToBits(v);
	double up = std::isnan(v) || v == INFINITY ? v : v == 0 ? bitsToDouble(1) : bitsToDouble(v > 0 ? b + 1 : b - 1);
	double down = std::isnan(v) || v == -INFINITY ? v : v == 0 ? bitsToDouble(1ULL << 63 | 1) : bitsToDouble(v > 0 ? b - 1 : b + 1);
	expectSame(c, "BitIncrement", Math::BitIncrement(v), up);
	expectSame(c, "BitDecrement", Math::BitDecrement(v), down);
	int clip = std::max(-5000, std::min(5000, n));
	expectSame(c, "ScaleB", Math::ScaleB(v, n), (double) ldexpl((long double) v, clip));
	int ex = std::isnan(v) || std::isinf(v) ? INT32_MAX : v == 0 ? INT32_MIN : (frexp(v, &ex), ex - 1);
	if (Math::ILogB(v) != ex)
		c.fail("ILogB is %d, expected %d", Math::ILogB(v), ex);
	if (Math::ExtractExponentFromBits(b) != (int) (b >> 52 & 0x7ff) || Math::ExtractSignificandFromBits(b) != (b & 0xFFFFFFFFFFFFFULL))
		c.fail("extracted exponent or significand");
}
PBT_PROP(elementary, 6000) {
	static const struct {
		const char* name;
		double (*lib)(double);
		double (*ref)(double);
	} fs[] = {{"Acos", Math::Acos, acos}, {"Acosh", Math::Acosh, acosh}, {"Asin", Math::Asin, asin}, {"Asinh", Math::Asinh, asinh}, {"Atan", Math::Atan, atan}, {"Atanh", Math::Atanh, atanh}, {"Cbrt", Math::Cbrt, cbrt},
		{"Cos", Math::Cos, cos}, {"Cosh", Math::Cosh, cosh}, {"Exp", Math::Exp, exp}, {"Log", Math::Log, log}, {"Log10", Math::Log10, log10}, {"Log2", Math::Log2, log2}, {"Sin", Math::Sin, sin}, {"Sinh", Math::Sinh, sinh},
		{"Sqrt", Math::Sqrt, sqrt}, {"Tan", Math::Tan, tan}, {"Tanh", Math::Tanh, tanh}};
	double v = c.coin() ? (double) c.near0(-4000, 4000) / 1000.0 : genNum(c);
	c.note("%.17g", v);
	interesting(c, v);
	for (auto& f : fs) {
		double g = f.lib(v), w = f.ref(v);
		if (!close(g, w))
			c.fail("%s is %.17g, expected %.17g", f.name, g, w);
	}
}
PBT_PROP(two_operand_functions, 5000) {
	double a = c.coin() ? (double) c.near0(-4000, 4000) / 1000.0 : genNum(c), b = c.coin() ? (double) c.near0(-4000, 4000) / 1000.0 : genOther(c, a), z = genOther(c, -(a * b));
	c.note("%.17g, %.17g, %.17g", a, b, z);
	interesting(c, a);
	interesting(c, b);
	if (!close(Math::Pow(a, b), pow(a, b)))
		c.fail("Pow is %.17g, expected %.17g", Math::Pow(a, b), pow(a, b));
	if (!close(Math::Atan2(a, b), atan2(a, b)))
		c.fail("Atan2 is %.17g, expected %.17g", Math::Atan2(a, b), atan2(a, b));
	expectSame(c, "FusedMultiplyAdd", Math::FusedMultiplyAdd(a, b, z), fma(a, b, z));
	double w = std::isnan(a) || std::isnan(b) || b == 1 || (a != 1 && (b == 0 || b == INFINITY)) ? (double) NAN : log(a) / log(b);
	double g = Math::Log(a, b);
	if (!close(g, w) && !(fabs(g - w) <= 1e-14 * fabs(w)))
		c.fail("Log to a base is %.17g, expected %.17g", g, w);
}
