// C24: floating text parsing is exact or rejected.
#include "values.h"
PBT_MAIN("C24", "A case is a text given to both parsing forms of both types (numbers assembled digit by digit, exact midpoints of neighbouring values and their neighbours to hundreds of digits, printed values, mutated numbers, random texts over the grammar's alphabet, all short texts) or a finite value printed through every route and read back; "
	"the oracle is an independent recogniser of the grammar with the C library's correctly rounded conversion, and the C library's general form for printing. Non-trivial: the text contains a digit and its value is not zero, or the value printed is not zero; distinct by generated choices.")
namespace {
bool white(wchar_t ch) { return ch == L' ' || (ch >= 9 && ch <= 13); }
enum Verdict { Reject, Accept, Either };
Verdict recognise(const WS& text, std::string& number) {
	size_t i = 0, e = text.size();
	while (i < e && white(text[i]))
		++i;
	while (e > i && white(text[e - 1]))
		--e;
	number = narrow(text.substr(i, e - i));
	size_t p = 0, n = number.size();
	auto digits = [&] {
		size_t k = p;
		while (p < n && number[p] >= '0' && number[p] <= '9')
			++p;
		return p - k;
	};
	if (p < n && (number[p] == '+' || number[p] == '-'))
		++p;
	std::string word = number.substr(p);
	for (char& ch : word)
		ch = (char) tolower(ch);
	if (word == "nan" || word == "inf" || word == "infinity")
		return Either;
	size_t m = digits();
	if (p < n && number[p] == '.') {
		++p;
		m += digits();
	}
	if (!m)
		return Reject;
	if (p < n && (number[p] == 'e' || number[p] == 'E')) {
		++p;
		if (p < n && (number[p] == '+' || number[p] == '-'))
			++p;
		if (!digits())
			return Reject;
	}
	return p == n ? Accept : Reject;
}
template<class V, class T> void parseOne(Case& c, const char* n, const WS& text, Verdict v, T want, bool same(T, T)) {
	String* s = mk(text);
	T a = 12345, b = 54321;
	bool ok = false;
	Ex e = tryCall([&] { a = V::Parse(s); });
	Ex e2 = tryCall([&] { ok = V::TryParse(s, b); });
	std::string t = show(text);
	if (e2 != ExNone)
		c.fail("%s TryParse %s ended with %s", n, t.c_str(), exName(e2));
	if (ok != (e == ExNone))
		c.fail("%s TryParse %s is %d but Parse ended with %s", n, t.c_str(), ok, exName(e));
	if (v == Reject && (ok || e != ExFormat))
		c.fail("%s Parse %s ended with %s (%.17g)", n, t.c_str(), exName(e), (double) a);
	if (v == Accept) {
		bool big = std::isinf(want);
		if (!ok && !(big && e == ExOverflow))
			c.fail("%s Parse %s ended with %s", n, t.c_str(), exName(e));
		if (ok && (!same(a, want) || !same(b, want)))
			c.fail("%s %s is %.17g by Parse and %.17g by TryParse, expected %.17g", n, t.c_str(), (double) a, (double) b, (double) want);
	}
	if (ok && memcmp(&a, &b, sizeof a) && !(std::isnan(a) && std::isnan(b)))
		c.fail("%s %s is %.17g by Parse and %.17g by TryParse", n, t.c_str(), (double) a, (double) b);
	if (!ok && b != 0 && b != 54321)
		c.fail("%s TryParse %s failed but left %.17g", n, t.c_str(), (double) b);
	if (ws(s) != text)
		c.fail("parsing changed the text");
	delete s;
}
bool same64(double a, double b) { return doubleToBits(a) == doubleToBits(b) || (a == 0 && b == 0); }
bool same32(float a, float b) { return floatToBits(a) == floatToBits(b) || (a == 0 && b == 0); }
void check(Case& c, const WS& text) {
	std::string number;
	Verdict v = recognise(text, number);
	c.label(v == Accept ? "number" : v == Reject ? "not a number" : "word");
	double d = v == Accept ? strtod(number.c_str(), nullptr) : 0;
	float f = v == Accept ? strtof(number.c_str(), nullptr) : 0;
	if (v == Accept ? d != 0 : text.find_first_of(L"0123456789") != WS::npos)
		c.nontrivial();
	parseOne<DoubleValue, Double>(c, "Double", text, v, d, same64);
	parseOne<SingleValue, Single>(c, "Single", text, v, f, same32);
}
WS pad(Case& c) {
	WS r;
	for (size_t n = c.chance(1, 8) ? 1 + (size_t) c.draw(2) : 0; n; --n)
		r += c.pick({L' ', L'\t', L'\n', L'\r', L'\v', L'\f'});
	return r;
}
WS assembled(Case& c) {
	WS r = pad(c);
	if (c.chance(1, 3))
		r += c.coin() ? L'-' : L'+';
	auto digits = [&](size_t n) {
		for (; n; --n)
			r += (wchar_t) (L'0' + (c.chance(1, 4) ? c.coin() ? 0 : 9 : c.draw(10)));
	};
	if (c.chance(1, 12))
		r += WS((size_t) c.draw(400), L'0');
	digits(c.size(c.chance(1, 6) ? 330 : 20));
	if (c.chance(2, 3)) {
		r += L'.';
		if (c.chance(1, 12))
			r += WS((size_t) c.draw(400), L'0');
		digits(c.size(c.chance(1, 8) ? 330 : 20));
	}
	if (c.chance(1, 2)) {
		r += c.coin() ? L'e' : L'E';
		if (c.chance(2, 3))
			r += c.coin() ? L'-' : L'+';
		std::string x = std::to_string(c.chance(1, 12) ? (long long) c.draw(1000000000000LL) : c.coin() ? (long long) c.draw(25) : (long long) c.draw(345));
		if (c.chance(1, 10))
			x = std::string((size_t) c.draw(30), '0') + x;
		r += wide(x);
	}
	return r + pad(c);
}
// The exact decimal digits of a midpoint between neighbours (or a value), nudged by one unit far behind.
WS midpoint(Case& c) {
	long double m;
	if (c.coin()) {
		double d = fabs(genDouble(c));
		if (!(d < 1e300))
			d = 1.5;
		m = ((long double) d + (long double) bitsToDouble(doubleToBits(d) + 1)) / 2;
	} else {
		float f = fabsf(genFloat(c));
		if (!(f < 3.4e38f))
			f = 1.5f;
		m = ((long double) f + (long double) bitsToFloat(floatToBits(f) + 1)) / 2;
	}
	static char b[1400];
	snprintf(b, sizeof b, "%.*Le", 1150, m);
	std::string s = b;
	size_t e = s.find('e'), last = s.find_last_not_of('0', e - 1);
	std::string mant = s.substr(0, last + 1), ex = s.substr(e);
	if (mant.back() == '.')
		mant += '0';
	switch (c.draw(4)) {
	case 0:
		break;
	case 1:                                                   // just above
		mant += std::string((size_t) c.draw(40), '0') + "1";
		break;
	case 2:                                                   // just below
		for (size_t k = mant.size(); k-- > 0;)
			if (mant[k] >= '1' && mant[k] <= '9') {
				--mant[k];
				mant += std::string(1 + (size_t) c.draw(40), '9');
				break;
			}
		break;
	default:                                                  // cut off
		mant = mant.substr(0, 2 + (size_t) c.draw(mant.size() - 1));
		if (mant.back() == '.')
			mant += '5';
	}
	return (c.coin() ? L"-" : L"") + wide(mant + ex);
}
WS printed(Case& c) {
	char b[400];
	static const char* f[] = {"%.17g", "%.9g", "%.6g", "%G", "%.20e", "%a", "%.3f"};
	snprintf(b, sizeof b, c.pick(f), c.coin() ? genDouble(c) : (double) genFloat(c));
	return wide(b);
}
WS mutate(Case& c, WS w) {
	static const wchar_t alpha[] = {L'0', L'5', L'9', L'.', L'-', L'+', L'e', L'E', L' ', L',', L'x', L'f', L'd', L'p', L'n', L'_', 0x660, 0xFF11, L'L'};
	for (size_t k = 1 + (size_t) c.draw(2); k; --k) {
		size_t at = (size_t) c.draw(w.size() + 1);
		switch (c.draw(3)) {
		case 0:
			w.insert(at, 1, c.pick(alpha));
			break;
		case 1:
			if (at < w.size())
				w.erase(at, 1);
			break;
		default:
			if (at < w.size())
				w[at] = c.pick(alpha);
		}
	}
	return w;
}
}
PBT_PROP(assembled_numbers, 5000) {
	WS w = assembled(c);
	c.note("%s", show(w).c_str());
	check(c, w);
}
PBT_PROP(midpoints, 1500) {
	WS w = midpoint(c);
	c.note("%s", narrow(w).c_str());
	check(c, w);
}
PBT_PROP(printed_and_mutated, 5000) {
	WS w = c.coin() ? printed(c) : assembled(c);
	if (c.chance(2, 3))
		w = mutate(c, w);
	c.note("%s", show(w).c_str());
	check(c, w);
}
PBT_PROP(random_texts, 4000) {
	static const wchar_t alpha[] = {L'1', L'0', L'9', L'.', L'-', L'+', L'e', L'E', L' ', L'i', L'n', L'f', L'a', L'x'};
	static const WS words[] = {L"nan", L"inf", L"infinity", L"NaN", L"Infinity", L"1e", L"0x", L".", L"", L"e5", L"- 1", L"1 1", L"--1", L"1,000", L"$1", L"(1)", L"1%", L"nan(1)", L"infinit", L"0x1p3"};
	WS w;
	if (c.chance(1, 6))
		w = c.pick(words);
	for (size_t n = c.size(9); n; --n)
		w += c.pick(alpha);
	c.note("%s", show(w).c_str());
	check(c, w);
}
PBT_PROP(every_short_text, 8) {
	static const WS alpha = L"09.-+eE \tx";
	uint64_t block = c.enumerate(100);
	c.note("texts of up to four characters, block %llu", (unsigned long long) block);
	c.nontrivial();
	WS head{alpha[(size_t) (block % 10)], alpha[(size_t) (block / 10)]};
	check(c, head.substr(0, 1));
	check(c, head);
	for (wchar_t x : alpha) {
		check(c, head + x);
		for (wchar_t y : alpha)
			check(c, head + x + y);
	}
}
PBT_PROP(null_text, 1) {
	c.enumerate(1);
	c.nontrivial();
	double d = 7;
	float f = 7;
	bool ok = true;
	if (tryCall([&] { d = DoubleValue::Parse(nullptr); }) != ExArgumentNull || tryCall([&] { f = SingleValue::Parse(nullptr); }) != ExArgumentNull)
		c.fail("Parse(null) is not a null argument error");
	Ex e = tryCall([&] { ok = DoubleValue::TryParse(nullptr, d); });
	if (e == ExNone ? ok : e != ExArgumentNull)
		c.fail("Double TryParse(null) gave %d, %s", ok, exName(e));
	ok = true;
	e = tryCall([&] { ok = SingleValue::TryParse(nullptr, f); });
	if (e == ExNone ? ok : e != ExArgumentNull)
		c.fail("Single TryParse(null) gave %d, %s", ok, exName(e));
	check(c, L"");
}
PBT_PROP(print_and_read_back, 5000) {
	bool single = c.chance(1, 3);
	double d = single ? (double) genFloat(c) : genDouble(c);
	c.note("%s %.17g", single ? "Single" : "Double", d);
	if (d != 0)
		c.nontrivial();
	char b[64];
	snprintf(b, sizeof b, "%G", d);
	WS want = wide(b);
	bool finite = std::isfinite(d);
	DoubleValue dv(d);
	SingleValue sv((Single) d);
	ValueType& v = single ? (ValueType&) sv : (ValueType&) dv;
	String* s = v.ToString();
	StringBuilder sb;
	if (single)
		sb.Append((Single) d);
	else
		sb.Append(d);
	StringBuilder si;
	if (single)
		si.Insert(0, (Single) d);
	else
		si.Insert(0, d);
	String* s2 = sb.ToString();
	String* s3 = si.ToString();
	String* s4 = String::Concat((Object*) &v);
	if (finite) {
		expectStr(c, "ToString", s, want);
		expectStr(c, "StringBuilder::Append", s2, want);
		expectStr(c, "StringBuilder::Insert", s3, want);
		expectStr(c, "Concat", s4, want);
		double back = single ? (double) SingleValue::Parse(s) : DoubleValue::Parse(s);
		long double err = fabsl((long double) back - d), tol = (single ? 5.06e-6L : 5.000001e-6L) * fabsl((long double) d) + (single ? 1.5e-45L : 5e-324L);
		if (std::isinf(back) ? fabs(d) < (single ? 3.4028e38 : 1.79769e308) : !(err <= tol))
			c.fail("%.17g prints as %s and reads back as %.17g", d, b, back);
	}
	else if (ws(s) != ws(s2) || ws(s) != ws(s3) || ws(s) != ws(s4))
		c.fail("the text routes print %s, %s, %s and %s", show(ws(s)).c_str(), show(ws(s2)).c_str(), show(ws(s3)).c_str(), show(ws(s4)).c_str());
	delete s;
	delete s2;
	delete s3;
	delete s4;
}
