#pragma once
#include "ints.h"
// Generators and boxes for the non-integer value types.
inline double bitsToDouble(uint64_t b) {
	double d;
	memcpy(&d, &b, 8);
	return d;
}
inline uint64_t doubleToBits(double d) {
	uint64_t b;
	memcpy(&b, &d, 8);
	return b;
}
inline float bitsToFloat(uint32_t b) {
	float d;
	memcpy(&d, &b, 4);
	return d;
}
inline uint32_t floatToBits(float d) {
	uint32_t b;
	memcpy(&b, &d, 4);
	return b;
}
const int64_t kTicksPerDay = 864000000000LL;
const int64_t kMaxDateTicks = 3652059LL * kTicksPerDay - 1;
// A double: special values, small integers and halves, decimal fractions, powers, neighbours, uniform bit patterns.
inline double genDouble(Case& c) {
	static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, INFINITY, -INFINITY, NAN, 4.9406564584124654e-324, -4.9406564584124654e-324, 2.2250738585072009e-308,
		2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 9007199254740992.0, 9007199254740993.0, 4503599627370496.5, 4503599627370495.5,
		0.49999999999999994, 2147483647.0, -2147483648.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 3.4028234663852886e38, 1.401298464324817e-45};
	switch (c.weighted({4, 4, 4, 3, 3, 4, 1, 2})) {
	case 0:
		return sp[c.draw(sizeof sp / sizeof sp[0])];
	case 1:
		return (double) c.near0(-2000, 2000) / 2.0;
	case 2: {
		static const double p10[] = {1, 10, 100, 1000, 1e4, 1e5, 1e6, 1e9, 1e12, 1e15};
		return (double) c.edge(-1000000000000LL, 1000000000000LL) / p10[c.draw(10)];
	}
	case 3: {
		double d = sp[c.draw(sizeof sp / sizeof sp[0])];
		return bitsToDouble(doubleToBits(d) + (uint64_t) c.near0(-3, 3));
	}
	case 4:
		return ldexp(1.0 + (double) c.draw(4) / 4.0, (int) c.near0(-1080, 1023)) * (c.coin() ? -1 : 1);
	case 5:
		return bitsToDouble(c.bits64());
	case 7: {                                                       // a few digits and a power of ten, or next to it
		double d = (double) (c.coin() ? 1 : c.coin() ? 1 + c.draw(9) : 1 + c.draw(9999999)) * pow(10.0, (double) c.near0(c.coin() ? -22 : -308, c.coin() ? 22 : 301));
		return bitsToDouble((c.coin() ? 1ull << 63 : 0) | (doubleToBits(d) + (uint64_t) c.near0(-2, 2)));
	}
	default:                                                        // half way between two singles, or next to it
		return bitsToDouble((c.coin() ? 1ull << 63 : 0) | (uint64_t) (1023 + c.near0(-148, 127)) << 52 | c.draw(1u << 23) << 29 | (0x10000000ull + (uint64_t) c.near0(-1, 1)));
	}
}
inline float genFloat(Case& c) {
	static const uint32_t sp[] = {0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff};
	switch (c.weighted({3, 3, 2, 3, 2})) {
	case 0:
		return bitsToFloat(sp[c.draw(sizeof sp / sizeof sp[0])]);
	case 1:
		return (float) c.near0(-2000, 2000) / 4.0f;
	case 2:
		return bitsToFloat(sp[c.draw(sizeof sp / sizeof sp[0])] + (uint32_t) c.near0(-3, 3));
	case 4: {
		float f = (float) ((double) (c.coin() ? 1 : 1 + c.draw(999)) * pow(10.0, (double) c.near0(-38, 35)));
		return bitsToFloat((c.coin() ? 1u << 31 : 0) | (floatToBits(f) + (uint32_t) c.near0(-2, 2)));
	}
	default:
		return bitsToFloat((uint32_t) c.draw(0x100000000ULL));
	}
}
// A tick count of a date: ends of the range, ends of days, months, years and centuries +-1, uniform.
inline int64_t daysFromCivil(int64_t y, int m, int d) {           // days since 0001-01-01
	y -= m <= 2;
	int64_t era = (y >= 0 ? y : y - 399) / 400;
	unsigned yoe = (unsigned) (y - era * 400);
	unsigned doy = (unsigned) ((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1);
	unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + (int64_t) doe - 306;
}
inline void civilFromDays(int64_t z, int64_t& y, int& m, int& d) {
	z += 306;
	int64_t era = (z >= 0 ? z : z - 146096) / 146097;
	unsigned doe = (unsigned) (z - era * 146097);
	unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	y = (int64_t) yoe + era * 400;
	unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
	unsigned mp = (5 * doy + 2) / 153;
	d = (int) (doy - (153 * mp + 2) / 5 + 1);
	m = (int) (mp < 10 ? mp + 3 : mp - 9);
	y += m <= 2;
}
inline bool leapYear(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
inline int monthLength(int64_t y, int m) {
	static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return m == 2 && leapYear(y) ? 29 : n[m - 1];
}
inline int64_t genYear(Case& c) {
	static const int ys[] = {1, 2, 3, 4, 5, 99, 100, 101, 104, 399, 400, 401, 404, 1582, 1600, 1700, 1899, 1900, 1901, 1970, 1999, 2000, 2001, 2004, 2100, 2400, 9996, 9998, 9999};
	return c.weighted({2, 3}) ? (int64_t) c.range(1, 9999) : ys[c.draw(sizeof ys / sizeof ys[0])];
}
inline int64_t genTimeOfDay(Case& c) {
	switch (c.weighted({2, 3, 2, 3})) {
	case 0:
		return 0;
	case 1: {
		static const int hs[] = {0, 1, 11, 12, 13, 22, 23};
		static const int ms[] = {0, 1, 9, 10, 59};
		return (hs[c.draw(7)] * 3600LL + ms[c.draw(5)] * 60LL + ms[c.draw(5)]) * 10000000LL + (c.coin() ? (int64_t) c.draw(10000000) : 0);
	}
	case 2:
		return kTicksPerDay - 1 - (int64_t) c.draw(3);
	default:
		return (int64_t) c.draw((uint64_t) kTicksPerDay);
	}
}
inline int64_t genDateTicks(Case& c) {
	switch (c.weighted({5, 1, 2})) {
	case 0: {
		int64_t y = genYear(c);
		int m, d;
		if (c.coin()) {
			m = (int) c.range(1, 12);
			d = c.coin() ? monthLength(y, m) - (int) c.draw(2) : 1 + (int) c.draw(2);
		} else {
			static const int md[][2] = {{1, 1}, {2, 28}, {3, 1}, {12, 31}, {12, 30}, {2, 27}};
			size_t k = (size_t) c.draw(6);
			m = md[k][0];
			d = md[k][1];
			if (m == 2 && d == 28)
				d = monthLength(y, 2);
		}
		return daysFromCivil(y, m, d) * kTicksPerDay + genTimeOfDay(c);
	}
	case 1:
		return c.coin() ? kMaxDateTicks - (int64_t) c.draw(3) : (int64_t) c.draw(3);
	default:
		return (int64_t) c.draw((uint64_t) kMaxDateTicks + 1);
	}
}
inline int64_t genSpanTicks(Case& c) {
	switch (c.weighted({3, 4, 3})) {
	case 0:
		return c.edge(INT64_MIN, INT64_MAX);
	case 1: {
		static const int64_t unit[] = {1, 10000, 10000000, 600000000LL, 36000000000LL, kTicksPerDay};
		int64_t u = unit[c.draw(6)];
		int64_t lim = std::min<int64_t>(INT64_MAX / u - 1, 20000000);
		return c.near0(-lim, lim) * u + c.near0(-1, 1);
	}
	default:
		return (int64_t) c.bits64();
	}
}
