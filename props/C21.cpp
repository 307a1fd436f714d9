// C21: integer mathematics is exact or reports the problem.
#include "values.h"
PBT_MAIN("C21", "A case is an operation of one integer type on one to three operands (limits +-1, powers of two +-1, near each other, uniform; every pair of 8-bit operands is walked); the oracle is 128-bit arithmetic. "
	"Non-trivial: an operand is not zero; distinct by generated choices.")
namespace {
struct M {
	const char* name;
	i128 lo, hi;
	std::function<i128(i128, i128)> max, min;
	std::function<i128(i128, i128, i128)> clamp;
	std::function<int(i128)> sign;                             // signed types only
	std::function<i128(i128)> abs;
};
template<class T> M unsignedOps(const char* n, i128 hi) {
	return M{n, 0, hi, [](i128 a, i128 b) { return (i128) Math::Max((T) a, (T) b); }, [](i128 a, i128 b) { return (i128) Math::Min((T) a, (T) b); },
		[](i128 v, i128 a, i128 b) { return (i128) Math::Clamp((T) v, (T) a, (T) b); }, nullptr, nullptr};
}
template<class T> M signedOps(const char* n, i128 lo, i128 hi) {
	M m = unsignedOps<T>(n, hi);
	m.lo = lo;
	m.sign = [](i128 v) { return (int) Math::Sign((T) v); };
	m.abs = [](i128 v) { return (i128) Math::Abs((T) v); };
	return m;
}
const i128 k63 = (i128) 1 << 63;
const std::vector<M>& types() {
	static std::vector<M> t{unsignedOps<Byte>("Byte", 255), signedOps<SByte>("SByte", -128, 127), signedOps<Int16>("Int16", -32768, 32767), unsignedOps<UInt16>("UInt16", 65535),
		signedOps<Int32>("Int32", -2147483648LL, 2147483647LL), unsignedOps<UInt32>("UInt32", 4294967295LL), signedOps<Int64>("Int64", -k63, k63 - 1), unsignedOps<UInt64>("UInt64", ((i128) 1 << 64) - 1)};
	return t;
}
i128 gen(Case& c, const M& t) { return t.lo < 0 ? (i128) c.edge((int64_t) t.lo, (int64_t) t.hi) : (i128) c.uedge(0, (uint64_t) t.hi); }
i128 other(Case& c, const M& t, i128 a) {
	if (c.chance(1, 3)) {
		i128 b = a + c.near0(-2, 2);
		if (b >= t.lo && b <= t.hi)
			return b;
	}
	return gen(c, t);
}
void pair(Case& c, const M& t, i128 a, i128 b) {
	if (t.max(a, b) != std::max(a, b))
		c.fail("%s Max(%s, %s) is %s", t.name, dec(a).c_str(), dec(b).c_str(), dec(t.max(a, b)).c_str());
	if (t.min(a, b) != std::min(a, b))
		c.fail("%s Min(%s, %s) is %s", t.name, dec(a).c_str(), dec(b).c_str(), dec(t.min(a, b)).c_str());
}
void single(Case& c, const M& t, i128 a) {
	if (!t.sign)
		return;
	if (t.sign(a) != (a < 0 ? -1 : a > 0))
		c.fail("%s Sign(%s) is %d", t.name, dec(a).c_str(), t.sign(a));
	i128 r = 0;
	Ex e = tryCall([&] { r = t.abs(a); });
	if (a == t.lo ? e != ExOverflow : e != ExNone || r != (a < 0 ? -a : a))
		c.fail("%s Abs(%s) gave %s, %s", t.name, dec(a).c_str(), dec(r).c_str(), exName(e));
}
void clampOne(Case& c, const M& t, i128 v, i128 lo, i128 hi) {
	i128 r = 0;
	Ex e = tryCall([&] { r = t.clamp(v, lo, hi); });
	if (lo > hi ? e == ExNone : e != ExNone || r != (v < lo ? lo : v > hi ? hi : v))
		c.fail("%s Clamp(%s, %s, %s) gave %s, %s", t.name, dec(v).c_str(), dec(lo).c_str(), dec(hi).c_str(), dec(r).c_str(), exName(e));
}
void divide(Case& c, bool wide, int64_t a, int64_t b, int form) {
	i128 q = 0, m = 0;
	bool rem = true;
	Ex e;
	if (!wide) {
		Int32 r = 77;
		e = tryCall([&] { q = Math::DivRem((Int32) a, (Int32) b, r); });
		m = r;
	}
	else if (form == 0) {
		Int64 r = 77;
		e = tryCall([&] { q = Math::DivRem((Int64) a, (Int64) b, r); });
		m = r;
	}
	else {
		rem = false;
		e = tryCall([&] { q = Math::Divide((Int64) a, (Int64) b); });
	}
	const char* n = !wide ? "DivRem(Int32)" : form == 0 ? "DivRem(Int64)" : "Divide(Int64)";
	int64_t lo = wide ? INT64_MIN : INT32_MIN;
	Ex want = b == 0 ? ExDivideByZero : a == lo && b == -1 ? ExOverflow : ExNone;
	if (e != want)
		c.fail("%s of %lld by %lld ended with %s", n, (long long) a, (long long) b, exName(e));
	if (e == ExNone && (q != (i128) a / b || (rem && m != (i128) a % b)))
		c.fail("%s of %lld by %lld gave %s remainder %s", n, (long long) a, (long long) b, dec(q).c_str(), dec(m).c_str());
}
}
PBT_PROP(every_8_bit_pair, 6) {
	int a = (int) c.enumerate(256);
	c.note("every 8-bit pair starting with %d", a);
	c.nontrivial();
	for (int b = 0; b < 256; ++b) {
		pair(c, types()[0], a, b);
		pair(c, types()[1], a - 128, b - 128);
		for (int k = 0; k < 4; ++k) {
			int v = (int) c.draw(256);
			clampOne(c, types()[0], v, a, b);
			clampOne(c, types()[1], v - 128, a - 128, b - 128);
		}
	}
	single(c, types()[1], a - 128);
	for (int k = 0; k < 256; ++k)
		single(c, types()[2], a * 256 + k - 32768);
}
PBT_PROP(pairs, 7000) {
	const M& t = c.pick(types());
	i128 a = gen(c, t), b = other(c, t, a);
	c.note("%s %s and %s", t.name, dec(a).c_str(), dec(b).c_str());
	if (a || b)
		c.nontrivial();
	pair(c, t, a, b);
	single(c, t, a);
}
PBT_PROP(clamping, 7000) {
	const M& t = c.pick(types());
	i128 v = gen(c, t), lo = other(c, t, v), hi = other(c, t, c.coin() ? v : lo);
	if (lo > hi && c.chance(2, 3))
		std::swap(lo, hi);
	c.note("%s %s in %s..%s", t.name, dec(v).c_str(), dec(lo).c_str(), dec(hi).c_str());
	if (v || lo || hi)
		c.nontrivial();
	c.label(lo > hi ? "inverted bounds" : v < lo || v > hi ? "clamped" : "inside");
	clampOne(c, t, v, lo, hi);
}
PBT_PROP(quotients, 8000) {
	bool w = c.coin();
	int form = w ? (int) c.draw(2) : 0;
	int64_t lo = w ? INT64_MIN : INT32_MIN, hi = w ? INT64_MAX : INT32_MAX;
	int64_t b = c.chance(1, 3) ? c.near0(-3, 3) : c.edge(lo, hi), a = c.edge(lo, hi);
	if (c.chance(1, 4)) {                                        // a multiple of the divisor +-1
		i128 x = (i128) b * c.near0(-1000, 1000) + c.near0(-1, 1);
		if (x >= lo && x <= hi)
			a = (int64_t) x;
	}
	c.note("%s %lld by %lld", w ? "Int64" : "Int32", (long long) a, (long long) b);
	if (a)
		c.nontrivial();
	divide(c, w, a, b, form);
}
PBT_PROP(products, 4000) {
	int32_t a = (int32_t) c.edge(INT32_MIN, INT32_MAX), b = (int32_t) c.edge(INT32_MIN, INT32_MAX);
	c.note("BigMul(%d, %d)", a, b);
	if (a && b)
		c.nontrivial();
	if (Math::BigMul(a, b) != (int64_t) a * b)
		c.fail("is %lld", (long long) Math::BigMul(a, b));
}
