// C23: floating-point classification agrees with the bit pattern.
#include "values.h"
PBT_MAIN("C23", "A case is a 64-bit or 32-bit pattern (class boundaries +-3, one bit away from a boundary, subnormals, NaN payloads with both signs, uniform) or one of 2048 exponents of a double, or a block of 4096 of the single patterns (all 2^32 in the thorough tier's cycle); the oracle classifies the raw bits. "
	"Non-trivial: the pattern is not zero; distinct by generated choices.")
namespace {
struct Class {
	bool nan, inf, neg, sub, normal, zero;
};
Class classify64(uint64_t b) {
	uint64_t e = b >> 52 & 0x7ff, m = b << 12;
	return Class{e == 0x7ff && m, e == 0x7ff && !m, (b >> 63) != 0, e == 0 && m, e > 0 && e < 0x7ff, e == 0 && !m};
}
Class classify32(uint32_t b) {
	uint32_t e = b >> 23 & 0xff, m = b << 9;
	return Class{e == 0xff && m, e == 0xff && !m, (b >> 31) != 0, e == 0 && m, e > 0 && e < 0xff, e == 0 && !m};
}
template<class V, class T> void check(Case& c, const char* n, T d, const Class& k, unsigned long long bits) {
	struct {
		const char* name;
		bool got, want;
	} p[] = {{"IsNaN", V::IsNaN(d), k.nan}, {"IsInfinity", V::IsInfinity(d), k.inf}, {"IsPositiveInfinity", V::IsPositiveInfinity(d), k.inf && !k.neg}, {"IsNegativeInfinity", V::IsNegativeInfinity(d), k.inf && k.neg},
		{"IsFinite", V::IsFinite(d), !k.nan && !k.inf}, {"IsNormal", V::IsNormal(d), k.normal}, {"IsSubnormal", V::IsSubnormal(d), k.sub}, {"IsNegative", V::IsNegative(d), k.neg || k.nan}};
	for (auto& q : p)
		if (q.got != q.want)
			c.fail("%s %s of %llx is %d", n, q.name, bits, q.got);
	if ((int) V::IsNaN(d) + V::IsInfinity(d) + V::IsNormal(d) + V::IsSubnormal(d) + (d == 0) != 1)
		c.fail("%s %llx is not in exactly one class", n, bits);
}
void one64(Case& c, uint64_t b) { check<DoubleValue>(c, "Double", bitsToDouble(b), classify64(b), b); }
void one32(Case& c, uint32_t b) {
	check<SingleValue>(c, "Single", bitsToFloat(b), classify32(b), b);
	Class k = classify32(b);
	Single s = SingleValue::ToSingle(b);
	if (floatToBits(s) != b || SingleValue::ToUInt32(s) != b || SingleValue::ToUInt32(bitsToFloat(b)) != b)
		c.fail("reinterpreting %x and back gives %x", b, SingleValue::ToUInt32(s));
	(void) k;
}
}
PBT_PROP(doubles, 8000) {
	uint64_t b;
	switch (c.weighted({3, 3, 2, 2})) {
	case 0:
		b = doubleToBits(genDouble(c));
		break;
	case 1:
		b = (c.coin() ? 1ULL << 63 : 0) | (uint64_t) c.pick({0LL, 1LL, 2LL, 0x7feLL, 0x7ffLL, 0x3ffLL}) << 52;
		if (c.coin())
			b ^= 1ULL << c.draw(64);
		else
			b += (uint64_t) c.near0(-3, 3);
		break;
	case 2:
		b = c.draw(2048) << 52 | (c.coin() ? 1ULL << c.draw(52) : 0) | (c.coin() ? 1ULL << 63 : 0);
		break;
	default:
		b = c.bits64();
	}
	c.note("%016llx", (unsigned long long) b);
	if (b)
		c.nontrivial();
	one64(c, b);
}
PBT_PROP(singles, 6000) {
	uint32_t b = c.coin() ? floatToBits(genFloat(c)) : (uint32_t) (c.draw(512) << 23) ^ (c.coin() ? 1u << c.draw(32) : 0) ^ (uint32_t) c.draw(4);
	c.note("%08x", b);
	if (b)
		c.nontrivial();
	one32(c, b);
}
PBT_PROP(single_blocks, 25) {
	// 4096 neighbouring patterns; the block numbers walk the whole space in a scattered order
	uint32_t block = (uint32_t) ((c.enumerate(1 << 20) * 0x9E3779B1ull) & 0xFFFFF);
	c.note("patterns %08x to %08x", block << 12, block << 12 | 0xFFF);
	c.nontrivial();
	for (uint32_t k = 0; k < 4096; ++k)
		one32(c, block << 12 | k);
}
PBT_PROP(every_exponent, 2) {
	// all signs and exponents with the mantissas around their ends
	uint64_t e = c.enumerate(32);
	c.note("exponents %llu to %llu", (unsigned long long) e * 64, (unsigned long long) e * 64 + 63);
	c.nontrivial();
	for (uint64_t x = e * 64; x < e * 64 + 64; ++x)
		for (uint64_t s = 0; s < 2; ++s) {
			for (int k = 0; k < 52; ++k)
				one64(c, s << 63 | x << 52 | 1ULL << k);
			for (uint64_t m : {0ULL, 0xFFFFFFFFFFFFFULL, 0x7FFFFFFFFFFFFULL, 0xFFFFFFFF00000ULL, 0xFFFFFFFFULL})
				one64(c, s << 63 | x << 52 | m);
			if (x < 256) {
				for (int k = 0; k < 23; ++k)
					one32(c, (uint32_t) (s << 31 | x << 23 | 1ULL << k));
				for (uint32_t m : {0u, 0x7FFFFFu, 0x3FFFFFu})
					one32(c, (uint32_t) (s << 31 | x << 23 | m));
			}
		}
}
PBT_PROP(constants, 1) {
	c.enumerate(1);
	c.nontrivial();
	if (doubleToBits(DoubleValue::MaxValue) != 0x7fefffffffffffffULL || doubleToBits(DoubleValue::MinValue) != 0xffefffffffffffffULL || doubleToBits(DoubleValue::Epsilon) != 1
		|| doubleToBits(DoubleValue::PositiveInfinity) != 0x7ff0000000000000ULL || doubleToBits(DoubleValue::NegativeInfinity) != 0xfff0000000000000ULL || !classify64(doubleToBits(DoubleValue::NaN)).nan)
		c.fail("a Double constant is wrong");
	if (floatToBits(SingleValue::MaxValue) != 0x7f7fffffu || floatToBits(SingleValue::MinValue) != 0xff7fffffu || floatToBits(SingleValue::Epsilon) != 1 || floatToBits(SingleValue::PositiveInfinity) != 0x7f800000u
		|| floatToBits(SingleValue::NegativeInfinity) != 0xff800000u || !classify32(floatToBits(SingleValue::NaN)).nan)
		c.fail("a Single constant is wrong");
	if (doubleToBits(Math::PI) != 0x400921fb54442d18ULL || doubleToBits(Math::E) != 0x4005bf0a8b145769ULL)
		c.fail("Math.PI or Math.E is wrong");
	for (double d : {DoubleValue::MaxValue, DoubleValue::MinValue, DoubleValue::Epsilon, DoubleValue::NaN, DoubleValue::PositiveInfinity, DoubleValue::NegativeInfinity})
		one64(c, doubleToBits(d));
	for (float d : {SingleValue::MaxValue, SingleValue::MinValue, SingleValue::Epsilon, SingleValue::NaN, SingleValue::PositiveInfinity, SingleValue::NegativeInfinity})
		one32(c, floatToBits(d));
}
