// C01: integer text parsing is exact or rejected.
#define OWN_STRINGS
#include "ints.h"
PBT_MAIN("C01", "A case is (integer type, text). Texts are written numbers (type limits +-3, multiples of 2^w plus an in-range rest, up to 60 digits, leading zeros, signs, white space), "
	"mutations of such texts, and random strings over digits, signs, white space and other characters; the oracle is an independent arbitrary-precision scanner. "
	"Non-trivial: the text has at least one digit and is not a plain in-range digit string of three or fewer characters; distinct by generated choices.")

namespace {
enum Verdict { Good, BadFormat, TooBig };
bool isWs(wchar_t ch) { return (ch >= 9 && ch <= 13) || ch == 32; }
// Independent scanner: [ws][sign]digits[ws].
Verdict scan(const WS& s, const IntType& t, i128& val) {
	size_t i = 0, n = s.size();
	while (i < n && isWs(s[i]))
		++i;
	bool neg = false;
	if (i < n && (s[i] == L'-' || s[i] == L'+'))
		neg = s[i++] == L'-';
	size_t d0 = i;
	i128 v = 0;
	const i128 cap = (i128) 1 << 100;
	while (i < n && s[i] >= L'0' && s[i] <= L'9') {
		v = v * 10 + (s[i] - L'0');
		if (v > cap)
			v = cap;
		++i;
	}
	if (i == d0)
		return BadFormat;
	while (i < n && isWs(s[i]))
		++i;
	if (i != n)
		return BadFormat;
	if (neg)
		v = -v;
	if (v < t.lo || v > t.hi)
		return TooBig;
	val = v;
	return Good;
}
void check(Case& c, const IntType& t, const WS& text) {
	c.note("%s parse %s", t.name, show(text).c_str());
	i128 want = 0;
	Verdict v = scan(text, t, want);
	c.label(v == Good ? "accepted" : v == BadFormat ? "format" : "overflow");
	String* s = mk(text);
	i128 got = 0;
	Ex e = t.parse(s, got);
	if (v == Good && e != ExNone)
		c.fail("%s::Parse(%s) raised %s, expected %s", t.name, show(text).c_str(), exName(e), dec(want).c_str());
	if (v == Good && got != want)
		c.fail("%s::Parse(%s) = %s, expected %s", t.name, show(text).c_str(), dec(got).c_str(), dec(want).c_str());
	if (v == BadFormat && e != ExFormat)
		c.fail("%s::Parse(%s) gave %s (%s), expected a format error", t.name, show(text).c_str(), exName(e), e == ExNone ? dec(got).c_str() : "");
	if (v == TooBig && e != ExOverflow)
		c.fail("%s::Parse(%s) gave %s (%s), expected an overflow", t.name, show(text).c_str(), exName(e), e == ExNone ? dec(got).c_str() : "");
	bool ok = false;
	i128 tv = 0;
	e = t.tryParse(s, ok, tv);
	if (e != ExNone)
		c.fail("%s::TryParse(%s) raised %s", t.name, show(text).c_str(), exName(e));
	if (ok != (v == Good))
		c.fail("%s::TryParse(%s) returned %d (value %s), expected %d", t.name, show(text).c_str(), ok, dec(tv).c_str(), v == Good);
	if (ok && tv != want)
		c.fail("%s::TryParse(%s) gave %s, expected %s", t.name, show(text).c_str(), dec(tv).c_str(), dec(want).c_str());
	expectStr(c, "operand after parsing", s, text);
}
WS genWs(Case& c) {
	static const wchar_t w[] = {L' ', L'\t', L'\n', L'\v', L'\f', L'\r'};
	WS r;
	for (size_t n = c.weighted({6, 2, 1, 1}); n > 0; --n)
		r += w[c.draw(6)];
	return r;
}
std::string genDigits(Case& c, const IntType& t, bool& neg) {
	neg = false;
	switch (c.weighted({4, 5, 4, 3, 2})) {
	case 0: {
		i128 v = genInt(c, t);
		neg = v < 0;
		return dec(v < 0 ? -v : v);
	}
	case 1: {     // around either limit
		i128 v = (c.coin() ? t.hi : t.lo) + (i128) c.draw(7) - 3;
		neg = v < 0;
		return dec(v < 0 ? -v : v);
	}
	case 2: {     // a multiple of 2^w plus something in range: wraps onto a plausible value
		static const int w[] = {8, 16, 32, 64};
		i128 v = ((i128) (1 + c.draw(12)) << w[c.draw(4)]) + (i128) c.draw(300) - 20;
		neg = c.chance(1, 3);
		return dec(v < 0 ? -v : v);
	}
	case 3: {
		neg = c.chance(1, 3);
		return dec((i128) c.bits64());
	}
	default: {
		size_t n = 1 + c.size(59);
		std::string r;
		for (size_t i = 0; i < n; ++i)
			r += (char) ('0' + c.draw(10));
		neg = c.chance(1, 3);
		return r;
	}
	}
}
WS genText(Case& c, const IntType& t) {
	bool neg;
	std::string d = genDigits(c, t, neg);
	WS r = genWs(c);
	if (neg || c.chance(1, 12))
		r += L'-';
	else if (c.chance(1, 5))
		r += L'+';
	for (size_t z = c.weighted({8, 1, 1}) * (1 + c.draw(25)); z > 0; --z)
		r += L'0';
	r += wide(d);
	r += genWs(c);
	return r;
}
void classify(Case& c, const WS& s) {
	bool digit = false;
	for (wchar_t ch : s)
		digit |= ch >= L'0' && ch <= L'9';
	if (digit && s.size() > 3)
		c.nontrivial();
}
}
PBT_PROP(written_numbers, 6000) {
	const IntType& t = c.pick(intTypes());
	WS s = genText(c, t);
	classify(c, s);
	check(c, t, s);
}
PBT_PROP(mutated_texts, 6000) {
	const IntType& t = c.pick(intTypes());
	WS s = genText(c, t);
	static const wchar_t ins[] = {L' ', L'-', L'+', L'0', L'9', L'1', L'\t', L'x', L'.', L',', L'e', L'a', L':', L'/', 0xA0, 0x660, L'\0', 0x3000};
	for (size_t n = 1 + c.draw(3); n > 0; --n) {
		size_t p = (size_t) c.draw(s.size() + 1);
		switch (c.draw(4)) {
		case 0:
		case 1:
			s.insert(s.begin() + p, ins[c.draw(18)]);
			break;
		case 2:
			if (p < s.size())
				s.erase(s.begin() + p);
			break;
		default:
			s += genText(c, t);
		}
	}
	classify(c, s);
	check(c, t, s);
}
PBT_PROP(random_texts, 4000) {
	const IntType& t = c.pick(intTypes());
	static const wchar_t al[] = {L'1', L'0', L'9', L'-', L'+', L' ', L'\n', L'x', L'A', L'.', 0x2003, L'\0'};
	WS s;
	for (size_t n = c.size(14); n > 0; --n)
		s += al[c.draw(c.chance(1, 3) ? 12 : 7)];
	classify(c, s);
	check(c, t, s);
}
// Every value of the 8- and 16-bit ranges and a margin on both sides, in text form.
PBT_PROP(small_ranges_exhaustive, 1) {
	int64_t off = 0;
	off = c.enumerate(97);
	c.note("all texts of -70000..70000 for the 8- and 16-bit types, slice %d", (int) off);
	c.nontrivial();
	for (int k = 0; k < 4; ++k) {
		const IntType& t = intTypes()[k];
		for (int64_t v = -70000 + off; v <= 70000; v += 97)
			check(c, t, wide(dec(v)));
	}
}
PBT_PROP(null_text, 2) {
	const IntType& t = c.pick(intTypes());
	c.nontrivial();
	c.note("%s parse null", t.name);
	i128 v;
	Ex e = t.parse(nullptr, v);
	if (e != ExArgumentNull)
		c.fail("%s::Parse(null) gave %s", t.name, exName(e));
	bool ok = false;
	e = t.tryParse(nullptr, ok, v);
	if (e == ExNone ? ok : e != ExArgumentNull)
		c.fail("%s::TryParse(null) gave %s, returned %d", t.name, exName(e), ok);
}
