// C27  Character classification and case mapping are consistent
#define OWN_STRINGS
#include "lib.h"
PBT_MAIN("C27", "an ASCII character checked against every table, or a string of at least 3 characters with letters of both cases or an index outside it")

namespace {
bool lower(wchar_t ch) { return ch >= L'a' && ch <= L'z'; }
bool upper(wchar_t ch) { return ch >= L'A' && ch <= L'Z'; }
bool digit(wchar_t ch) { return ch >= L'0' && ch <= L'9'; }
bool among(wchar_t ch, const char* set) { return ch > 0 && ch < 128 && strchr(set, (char) ch); }
// The .NET tables for U+0000..U+007F.
struct Pred {
	const char* name;
	bool (*table)(wchar_t);
	Boolean (*one)(Char);
	Boolean (*at)(String*, Int32);
};
const Pred preds[] = {
	{"IsControl", [](wchar_t ch) { return ch < 32 || ch == 127; }, CharValue::IsControl, CharValue::IsControl},
	{"IsDigit", digit, CharValue::IsDigit, CharValue::IsDigit},
	{"IsLetter", [](wchar_t ch) { return lower(ch) || upper(ch); }, CharValue::IsLetter, CharValue::IsLetter},
	{"IsLetterOrDigit", [](wchar_t ch) { return lower(ch) || upper(ch) || digit(ch); }, CharValue::IsLetterOrDigit, CharValue::IsLetterOrDigit},
	{"IsLower", lower, CharValue::IsLower, CharValue::IsLower},
	{"IsNumber", digit, CharValue::IsNumber, CharValue::IsNumber},
	{"IsPunctuation", [](wchar_t ch) { return among(ch, "!\"#%&'()*,-./:;?@[\\]_{}"); }, CharValue::IsPunctuation, CharValue::IsPunctuation},
	{"IsSeparator", [](wchar_t ch) { return ch == L' '; }, CharValue::IsSeparator, CharValue::IsSeparator},
	{"IsUpper", upper, CharValue::IsUpper, CharValue::IsUpper},
	{"IsWhiteSpace", [](wchar_t ch) { return (ch >= 9 && ch <= 13) || ch == 32; }, CharValue::IsWhiteSpace, CharValue::IsWhiteSpace},
};
enum { NP = sizeof preds / sizeof preds[0] };
wchar_t tableLower(wchar_t ch) { return ch < 128 ? (upper(ch) ? ch + 32 : ch) : CharValue::ToLower(ch); }
wchar_t tableUpper(wchar_t ch) { return ch < 128 ? (lower(ch) ? ch - 32 : ch) : CharValue::ToUpper(ch); }
void checkChar(Case& c, wchar_t ch) {
	if (ch < 128) {
		for (const Pred& p : preds)
			if (!!p.one(ch) != p.table(ch))
				c.fail("Char::%s(U+%04X) is %d, the table says %d", p.name, (unsigned) ch, (int) p.one(ch), (int) p.table(ch));
		double v = CharValue::GetNumericValue(ch), want = digit(ch) ? ch - L'0' : -1.0;
		if (v != want)
			c.fail("Char::GetNumericValue(U+%04X) is %g, expected %g", (unsigned) ch, v, want);
		if (CharValue::ToLower(ch) != tableLower(ch))
			c.fail("Char::ToLower(U+%04X) is U+%04X, expected U+%04X", (unsigned) ch, (unsigned) CharValue::ToLower(ch), (unsigned) tableLower(ch));
		if (CharValue::ToUpper(ch) != tableUpper(ch))
			c.fail("Char::ToUpper(U+%04X) is U+%04X, expected U+%04X", (unsigned) ch, (unsigned) CharValue::ToUpper(ch), (unsigned) tableUpper(ch));
	}
	if (!!CharValue::IsLetterOrDigit(ch) != (CharValue::IsLetter(ch) || CharValue::IsDigit(ch)))
		c.fail("Char::IsLetterOrDigit(U+%04X) disagrees with IsLetter and IsDigit", (unsigned) ch);
	if (CharValue::ToLower(CharValue::ToLower(ch)) != CharValue::ToLower(ch))
		c.fail("Char::ToLower is not idempotent on U+%04X", (unsigned) ch);
	if (CharValue::ToUpper(CharValue::ToUpper(ch)) != CharValue::ToUpper(ch))
		c.fail("Char::ToUpper is not idempotent on U+%04X", (unsigned) ch);
	if ((CharValue::IsLower(ch) || CharValue::IsUpper(ch)) && !CharValue::IsLetter(ch))
		c.fail("U+%04X has a case but is not a letter", (unsigned) ch);
	if (CharValue::GetNumericValue(ch) < 0 && CharValue::IsDigit(ch))
		c.fail("digit U+%04X has no numeric value", (unsigned) ch);
}
wchar_t anyChar(Case& c) {
	switch (c.weighted({6, 2, 1, 1})) {
	case 0:
		return (wchar_t) c.draw(128);
	case 1:
		return c.coin() ? (wchar_t) (L'a' + c.draw(26)) : (wchar_t) (L'A' + c.draw(26));
	case 2:
		return (wchar_t) c.draw(0x10000);
	default: {
		static const wchar_t e[] = {L'@', L'[', L'`', L'{', L'/', L':', 0, 127, 128, 0xFF, 0x130, 0x131, 0xFFFF};
		return e[c.draw(sizeof e / sizeof e[0])];
	}
	}
}
}

PBT_PROP(ascii_table, 13) {
	wchar_t ch = (wchar_t) c.enumerate(128);
	c.note("U+%04X", (unsigned) ch);
	c.nontrivial();
	checkChar(c, ch);
}
PBT_PROP(every_char, 656) {
	wchar_t ch = (wchar_t) c.enumerate(0x10000);
	c.note("U+%04X", (unsigned) ch);
	checkChar(c, ch);
}
// (string, index) forms agree with the one-character forms and reject what lies outside.
namespace {
WS someText(Case& c, size_t n) {
	WS unit, w;
	for (size_t i = 0; i < n && i < 60; ++i)
		unit += anyChar(c);
	while (w.size() < n)
		w += unit;
	w.resize(n);
	for (int k = 0; n > 60 && k < 3; ++k)
		w[(size_t) c.draw(n)] = anyChar(c);
	return w;
}
void stringIndex(Case& c, size_t n) {
	WS w = someText(c, n);
	Int32 at;
	switch (c.weighted({8, 2, 1, 1})) {
	case 0:
		at = n ? (Int32) c.draw(n) : 0;
		break;
	case 1:
		at = (Int32) n + (Int32) c.draw(3);
		break;
	case 2:
		at = -1 - (Int32) c.draw(3);
		break;
	default:
		at = (Int32) c.edge(INT32_MIN, INT32_MAX);
	}
	bool ok = at >= 0 && at < (Int32) n;
	String* s = mk(w);
	c.note("%s at %d", show(w).c_str(), at);
	if (n >= 3 || !ok)
		c.nontrivial();
	if (!ok)
		c.label("index outside");
	for (const Pred& p : preds) {
		bool r = false;
		Ex e = tryCall([&] { r = p.at(s, at); });
		if (ok != (e == ExNone))
			c.fail("Char::%s(%s, %d) gave %s", p.name, show(w).c_str(), at, exName(e));
		if (ok && r != !!p.one(w[(size_t) at]))
			c.fail("Char::%s(%s, %d) is %d but of that character it is %d", p.name, show(w).c_str(), at, (int) r, (int) p.one(w[(size_t) at]));
		if (ok && w[(size_t) at] < 128 && r != p.table(w[(size_t) at]))
			c.fail("Char::%s(%s, %d) is %d, the table says otherwise", p.name, show(w).c_str(), at, (int) r);
	}
	double v = 0;
	Ex e = tryCall([&] { v = CharValue::GetNumericValue(s, at); });
	if (ok != (e == ExNone))
		c.fail("Char::GetNumericValue(%s, %d) gave %s", show(w).c_str(), at, exName(e));
	if (ok && v != CharValue::GetNumericValue(w[(size_t) at]))
		c.fail("Char::GetNumericValue(%s, %d) is %g", show(w).c_str(), at, v);
	if (c.chance(1, 8)) {
		for (const Pred& p : preds)
			if ((e = tryCall([&] { p.at(nullptr, at); })) != ExArgumentNull)
				c.fail("Char::%s(null, %d) gave %s", p.name, at, exName(e));
		if ((e = tryCall([&] { CharValue::GetNumericValue(nullptr, at); })) != ExArgumentNull)
			c.fail("Char::GetNumericValue(null, %d) gave %s", at, exName(e));
	}
	expectStr(c, "the string afterwards", s, w);
}
void stringCase(Case& c, size_t n) {
	WS w = someText(c, n), lo, up;
	bool l = false, u = false;
	for (size_t i = 0; i < n; ++i) {
		wchar_t ch = w[i];
		lo += tableLower(ch);
		up += tableUpper(ch);
		l |= lower(ch);
		u |= upper(ch);
	}
	c.note("%s", show(w).c_str());
	if (n >= 3 && l && u)
		c.nontrivial();
	String* s = mk(w);
	String *a = s->ToLower(), *b = s->ToUpper();
	expectStr(c, "ToLower", a, lo);
	expectStr(c, "ToUpper", b, up);
	expectStr(c, "ToLowerInvariant", s->ToLowerInvariant(), lo);
	expectStr(c, "ToUpperInvariant", s->ToUpperInvariant(), up);
	expectStr(c, "ToLower of ToLower", a->ToLower(), lo);
	expectStr(c, "ToUpper of ToUpper", b->ToUpper(), up);
	bool ascii = true;
	for (wchar_t ch : w)
		ascii &= ch < 128;
	if (ascii) {
		expectStr(c, "ToLower of ToUpper", b->ToLower(), lo);
		expectStr(c, "ToUpper of ToLower", a->ToUpper(), up);
	}
	expectStr(c, "the string afterwards", s, w);
	expectStr(c, "the first result afterwards", a, lo);
}
}
PBT_PROP(string_index, 2000) { stringIndex(c, c.size(20)); }
PBT_PROP(string_case, 2000) { stringCase(c, c.size(60)); }
PBT_PROP(long_string_index, 20) { stringIndex(c, genLongLen(c)); }
PBT_PROP(long_string_case, 20) { stringCase(c, genLongLen(c)); }
PBT_PROP(huge_string, 2) {
	LongTexts guard(1, true);
	if (c.coin())
		stringIndex(c, genLongLen(c));
	else
		stringCase(c, genLongLen(c));
}
