// Glue between the engine and the library under test.  Uses only the public headers.
#pragma once
#include "pbt.h"
#include <DotnetTypes.h>
#include <algorithm>
#include <cmath>
#include <functional>
#include <cwchar>
#include <cwctype>
#include <string>
#include <vector>
using namespace DotnetLibrary;
typedef __int128 i128;
typedef unsigned __int128 u128;
using pbt::Case;

enum Ex {
	ExNone, ExIndexOutOfRange, ExArgumentNull, ExRank, ExArgumentOutOfRange, ExArgument, ExNotImplemented, ExInvalidCast,
	ExInvalidOperation, ExFormat, ExOverflow, ExMinMax, ExArithmetic, ExDivideByZero, ExOther
};
inline const char* exName(int e) {
	static const char* n[] = {"no exception", "IndexOutOfRange", "ArgumentNull", "Rank", "ArgumentOutOfRange", "Argument", "NotImplemented",
		"InvalidCast", "InvalidOperation", "Format", "Overflow", "ThrowMinMax", "Arithmetic", "DivideByZero", "Exception(base)"};
	return n[e];
}
inline Ex classify(Exception* e) {
	if (dynamic_cast<IndexOutOfRangeException*>(e)) return ExIndexOutOfRange;
	if (dynamic_cast<ArgumentNullException*>(e)) return ExArgumentNull;
	if (dynamic_cast<RankException*>(e)) return ExRank;
	if (dynamic_cast<ArgumentOutOfRangeException*>(e)) return ExArgumentOutOfRange;
	if (dynamic_cast<ThrowMinMaxException*>(e)) return ExMinMax;
	if (dynamic_cast<ArgumentException*>(e)) return ExArgument;
	if (dynamic_cast<NotImplementedException*>(e)) return ExNotImplemented;
	if (dynamic_cast<InvalidCastException*>(e)) return ExInvalidCast;
	if (dynamic_cast<InvalidOperationException*>(e)) return ExInvalidOperation;
	if (dynamic_cast<FormatException*>(e)) return ExFormat;
	if (dynamic_cast<OverflowException*>(e)) return ExOverflow;
	if (dynamic_cast<DivideByZeroException*>(e)) return ExDivideByZero;
	if (dynamic_cast<ArithmeticException*>(e)) return ExArithmetic;
	return ExOther;
}
// Runs f; reports which library exception (if any) it ended with.
template<class F> Ex tryCall(F f) {
	try {
		f();
		return ExNone;
	}
	catch (Exception* e) {
		return classify(e);
	}
}
inline std::string describeLibraryException() {
	try {
		throw;
	}
	catch (Exception* e) {
		return std::string("library ") + exName(classify(e));
	}
	catch (std::exception& e) {
		return e.what();
	}
	catch (...) {
		return "foreign exception";
	}
}
static struct InstallDescribe {
	InstallDescribe() { pbt::describeException = describeLibraryException; }
} installDescribe;

// ---------------------------------------------------------------------------------------- strings
typedef std::wstring WS;
inline std::string show(const WS& w) {
	std::string r = "\"";
	size_t n = 0;
	for (wchar_t ch : w) {
		if (++n > 160) {
			r += "...(" + std::to_string(w.size()) + ")";
			break;
		}
		if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\')
			r += (char) ch;
		else {
			char b[16];
			snprintf(b, sizeof b, "\\u{%x}", (unsigned) ch);
			r += b;
		}
	}
	return r + "\"";
}
inline std::string show(wchar_t ch) { return show(WS(1, ch)); }
// Read the content of a library string through its public accessors.
inline WS ws(String* s) {
	if (!s)
		return L"<null>";
	return WS(s->get_Buffer(), (size_t) s->get_Length());
}
// A library string with exactly this content (embedded NULs included).
// Strings made for a case are destroyed after it where the harness says OWN_STRINGS, so that the next case's
// strings can lie where they were.
inline std::vector<String*>*& madeStrings() {
	static std::vector<String*>* v = nullptr;
	return v;
}
struct OwnStrings {
	std::vector<String*> made;
	OwnStrings() { madeStrings() = &made; }
	~OwnStrings() {
		madeStrings() = nullptr;
		for (String* s : made)
			delete s;
	}
};
// An object made as on the stack or inside another one: in memory that holds something else.
template<class T, class... A> T* inDirt(A... a) {
	void* p = malloc(sizeof(T));
	memset(p, 0xA5, sizeof(T));
	return new (p) T(a...);
}
template<class T, class... A> T* made(Case& c, A... a) { return c.chance(1, 3) ? inDirt<T, A...>(a...) : new T(a...); }
inline String* mk(const WS& w) {
	size_t sum = w.size();
	for (size_t i = 0; i < w.size() && i < 8; ++i)
		sum += (size_t) w[i];
	String* s = sum % 4 == 1 ? inDirt<String>(w.c_str(), 0, (Int32) w.size()) : new String(w.c_str(), 0, (Int32) w.size());
	if (madeStrings())
		madeStrings()->push_back(s);
	return s;
}
#ifdef OWN_STRINGS
#undef PBT_PROP
#define PBT_PROP(name, weight) \
	static void name##_body_(pbt::Case& c); \
	static void name(pbt::Case& c) { OwnStrings own; name##_body_(c); } \
	static pbt::Reg reg_##name(#name, name, weight); \
	static void name##_body_(pbt::Case& c)
#endif
inline Array* mkChars(const WS& w) {
	Array* a = new Array(CharType, (Int32) w.size());
	if (!w.empty())
		memcpy(a->Address(0), w.data(), w.size() * sizeof(Char));
	return a;
}
inline Array* mkBytes(const std::vector<uint8_t>& v) {
	Array* a = new Array(ByteType, (Int32) v.size());
	if (!v.empty())
		memcpy(a->Address(0), v.data(), v.size());
	return a;
}
inline Array* mkObjs(const std::vector<Object*>& v, DataType t = ObjectType) {
	Array* a = new Array(t, (Int32) v.size());
	for (size_t i = 0; i < v.size(); ++i)
		*(Object**) a->Address((Int32) i) = v[i];
	return a;
}
// Checks a string's content, length and terminator.
inline void expectStr(Case& c, const char* what, String* got, const WS& want) {
	if (!got)
		c.fail("%s returned null, expected %s", what, show(want).c_str());
	if (got->get_Length() != (Int32) want.size() || ws(got) != want)
		c.fail("%s returned %s (length %d), expected %s (length %d)", what, show(ws(got)).c_str(), got->get_Length(), show(want).c_str(), (int) want.size());
	if (got->get_Buffer()[want.size()] != 0)
		c.fail("%s: result %s is not terminated after its length", what, show(want).c_str());
}
inline WS wide(const std::string& s) { return WS(s.begin(), s.end()); }
inline std::string narrow(const WS& s) {
	std::string r;
	for (wchar_t ch : s)
		r += (ch > 0 && ch < 128) ? (char) ch : '?';
	return r;
}

// ------------------------------------------------------------------------------------- generators
// A character: mostly a tiny alphabet so that matches happen, some wide ones.
inline wchar_t genChar(Case& c, int mode = 0) {
	static const wchar_t small[] = {L'a', L'b', L'A', L'B', L'c'};
	static const wchar_t odd[] = {L' ', L'\t', L'\n', L'\r', L'0', L'9', L'-', L'Z', L'z', L'_', L'[', L'@', L'`', L'{', 0xA0, 0x2003, 0x3000, 0xFEFF, 0x130, 0xE9, 0x3A9, 0x7FFF, 0x8000, 0xFFFF};
	switch (c.weighted(mode == 1 ? std::initializer_list<unsigned>{8, 1, 0, 0} : std::initializer_list<unsigned>{12, 4, 2, 1})) {
	case 0:
		return small[c.draw(5)];
	case 1:
		return odd[c.draw(sizeof odd / sizeof odd[0])];
	case 2:
		return (wchar_t) (32 + c.draw(95));
	default:
		return (wchar_t) (1 + c.draw(0xFFFF));
	}
}
// Long texts: while a sub-property holds a LongTexts, one in `odds` of its texts is a short piece repeated
// to a length around a power of two or a round number, with a few characters changed.
inline unsigned& longOdds() {
	static unsigned v;
	return v;
}
// huge: around the limits of 16 bits and beyond them, with the places of the changed characters remembered in longMarks.
inline bool& longHuge() {
	static bool v;
	return v;
}
inline std::vector<size_t>& longMarks() {
	static std::vector<size_t> v;
	return v;
}
struct LongTexts {
	explicit LongTexts(unsigned odds, bool huge = false) {
		longOdds() = odds;
		longHuge() = huge;
		longMarks().clear();
	}
	~LongTexts() {
		longOdds() = 0;
		longHuge() = false;
	}
};
inline size_t genLongLen(Case& c) {
	if (longHuge()) {
		static const int most[] = {32767, 65535, 65536, 69632, 98304, 100000, 131072};
		return (size_t) (c.pick(most) + (c.coin() ? (int) c.draw(40000) : (int) c.near0(-2, 3)));
	}
	static const int at[] = {16, 32, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10000, 16384, 32768, 65536};
	int base = c.chance(1, 12) ? at[c.draw(19)] : at[c.draw(14)];
	return (size_t) (base + (c.chance(1, 4) ? (int) c.draw((uint64_t) base) : (int) c.near0(-2, 3)));
}
inline WS genLong(Case& c, int mode) {
	size_t n = genLongLen(c), u = 1 + (size_t) c.draw(longHuge() && c.coin() ? 1 : 7);
	WS unit, r;
	for (size_t i = 0; i < u; ++i)
		unit += genChar(c, mode);
	r.reserve(n + u);
	while (r.size() < n)
		r += unit;
	r.resize(n);
	if (longHuge()) {
		longMarks().clear();
		for (size_t k = (size_t) c.draw(4); k > 0; --k) {
			static const int at[] = {32766, 32768, 65534, 65536};
			size_t pos = c.chance(1, 4) ? (size_t) c.pick(at) : (size_t) (c.coin() ? c.edge(0, (int64_t) n - 1) : (int64_t) c.draw(n));
			for (size_t j = 1 + (size_t) c.draw(5); j > 0 && pos + j <= n; --j)
				r[pos + j - 1] = genChar(c, mode);
			if (pos < n)
				longMarks().push_back(pos);
		}
		return r;
	}
	for (size_t k = (size_t) c.draw(5); k > 0; --k)
		r[(size_t) (c.coin() ? c.edge(0, (int64_t) n - 1) : (int64_t) c.draw(n))] = genChar(c, mode);
	return r;
}
// A character that shares most of its bits with another: what a narrowed or masked comparison confuses with it.
inline wchar_t related(Case& c, wchar_t ch) {
	wchar_t r;
	switch (c.draw(4)) {
	case 0: r = ch ^ (wchar_t) (1u << c.draw(16)); break;
	case 1: r = (wchar_t) ((ch & 0xFF) | (c.draw(256) << 8)); break;
	case 2: r = ch & 0x7F; break;
	default: r = (wchar_t) ((ch + 32 * (1 + c.draw(8))) & 0xFFFF);
	}
	return r ? r : L'~';
}
inline wchar_t otherChar(Case& c, wchar_t ch, int mode = 0) { return c.chance(1, 3) ? related(c, ch) : genChar(c, mode); }
inline WS genStr(Case& c, size_t maxLen, int mode = 0) {
	if (longOdds() && c.chance(1, longOdds()))
		return genLong(c, mode);
	size_t n = c.size(maxLen);
	WS r;
	for (size_t i = 0; i < n; ++i)
		r += genChar(c, mode);
	return r;
}
// A set of many characters, and a text of characters related to them.
inline WS genBigSet(Case& c, WS& text) {
	WS set;
	size_t n = c.coin() ? 3 + (size_t) c.draw(30) : 3 + c.size(300);
	wchar_t base = (wchar_t) (1 + c.draw(c.coin() ? 200 : 0xFE00));
	int step = 1 + (int) c.draw(3);
	for (size_t i = 0; i < n; ++i)
		set += (wchar_t) std::max<uint64_t>(1, (base + i * (size_t) step) & 0xFFFF);
	for (size_t i = c.chance(1, 3) ? 3 : 0; i; --i)
		set[(size_t) c.draw(n)] = genChar(c);
	text.clear();
	for (size_t i = 0, k = 1 + (size_t) c.draw(8); i < k; ++i) {
		wchar_t ch = set[(size_t) (c.chance(1, 3) ? n - 1 : c.draw(n))];
		text += c.chance(1, 4) ? ch : otherChar(c, ch);
	}
	return set;
}
// A piece of s (often), a mutated piece, or something unrelated.
inline WS genNeedle(Case& c, const WS& s, size_t maxLen) {
	if (longHuge() && !longMarks().empty() && c.chance(3, 4)) {          // a piece around a changed place
		size_t at = longMarks()[(size_t) c.draw(longMarks().size())];
		at -= std::min<size_t>(at, (size_t) c.draw(3));
		if (at < s.size())
			return s.substr(at, 1 + (size_t) c.draw(9));
	}
	if (longOdds() && s.size() > 60) {                              // a piece of up to 300 characters, or nearly all of a long text
		size_t from, n;
		if (c.chance(1, 6)) {
			from = (size_t) c.draw(3);
			n = s.size() - from - (size_t) c.draw(3);
		} else {
			n = 1 + c.size(s.size() > 5000 ? 40 : 300) % s.size();
			from = c.coin() ? (size_t) c.draw(s.size() - n + 1) : c.coin() ? s.size() - n : (size_t) 0;
		}
		WS r = s.substr(from, n);
		if (c.chance(1, 3)) {
			wchar_t& x = r[(size_t) (c.coin() ? (int64_t) r.size() - 1 : (int64_t) c.draw(r.size()))];
			x = otherChar(c, x, 1);
		}
		return r;
	}
	switch (c.weighted({6, 2, 2})) {
	case 0:
	case 1: {
		size_t from = (size_t) c.draw(s.size() + 1), n = (size_t) c.draw(std::min<size_t>(s.size() - from, maxLen) + 1);
		WS r = s.substr(from, n);
		if (c.chance(1, 4) && !r.empty()) {
			wchar_t& x = r[(size_t) c.draw(r.size())];
			x = otherChar(c, x, 1);
		}
		if (c.chance(1, 6))
			r += genChar(c, 1);
		return r;
	}
	default:
		return genStr(c, maxLen, 1);
	}
}
