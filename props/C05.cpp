// C05: string comparison is a consistent order.
#define OWN_STRINGS
#include "lib.h"
PBT_MAIN("C05", "A case is three related strings (copies, case flips, prefixes, one changed character, embedded NULs, null) compared whole or by ranges with and without case, against a reference order "
	"over (folded characters, length, case), and checked for antisymmetry, transitivity and agreement with all equality forms. Non-trivial: at least two non-null strings sharing their first character or their folded text; distinct by generated choices.")

namespace {
int sgn(int v) { return v < 0 ? -1 : v > 0; }
wchar_t fold(wchar_t ch) { return ch >= L'A' && ch <= L'Z' ? ch + 32 : ch; }
int ordinal(const WS& a, const WS& b) {
	size_t n = std::min(a.size(), b.size());
	for (size_t i = 0; i < n; ++i)
		if (a[i] != b[i])
			return a[i] < b[i] ? -1 : 1;
	return a.size() < b.size() ? -1 : a.size() > b.size();
}
int culture(const WS& a, const WS& b, bool ignoreCase) {
	WS fa, fb;
	for (auto ch : a)
		fa += fold(ch);
	for (auto ch : b)
		fb += fold(ch);
	int r = ordinal(fa, fb);
	if (r || ignoreCase || a == b)
		return r;
	for (size_t i = 0;; ++i)
		if (a[i] != b[i])
			return fold(a[i]) == a[i] ? -1 : 1;          // lower case first
}
WS variant(Case& c, const WS& s) {
	WS r = s;
	switch (c.weighted({3, 4, 2, 3, 2, 2})) {
	case 0:
		break;
	case 1:
		if (r.size() > 250) {
			for (int k = 0; k < 3; ++k) {
				wchar_t& ch = r[(size_t) (c.coin() ? (int64_t) c.draw(r.size()) : c.edge(0, (int64_t) r.size() - 1))];
				ch = ch >= L'a' && ch <= L'z' ? ch - 32 : ch >= L'A' && ch <= L'Z' ? ch + 32 : ch;
			}
			break;
		}
		for (auto& ch : r)
			if (c.chance(1, 3))
				ch = ch >= L'a' && ch <= L'z' ? ch - 32 : ch >= L'A' && ch <= L'Z' ? ch + 32 : ch;
		break;
	case 2:
		r = r.substr(0, (size_t) c.draw(r.size() + 1));
		break;
	case 3:
		if (!r.empty()) {
			wchar_t& x = r[(size_t) c.draw(r.size())];
			x = otherChar(c, x);
		}
		break;
	case 4:
		r += genStr(c, 3);
		break;
	default:
		r = genStr(c, 8);
	}
	if (c.chance(1, 8) && !r.empty())
		r[(size_t) c.draw(r.size())] = 0;
	return r;
}
struct Opt {
	bool null;
	WS s;
	String* p;
};
using ::show;
std::string show(const Opt& o) { return o.null ? "null" : ::show(o.s); }
}
namespace {
void wholeStrings(Case& c) {
	Opt v[3];
	WS base = genStr(c, c.chance(1, 10) ? 200 : 10);
	for (auto& o : v) {
		o.null = c.chance(1, 12);
		o.s = variant(c, base);
		o.p = o.null ? nullptr : mk(o.s);
		if (c.chance(1, 12) && !v[0].null && &o != v)
			o = v[0];                                     // the very same object
	}
	c.note("%s %s %s", show(v[0]).c_str(), show(v[1]).c_str(), show(v[2]).c_str());
	if (!v[0].null && !v[1].null && !v[0].s.empty() && !v[1].s.empty() && fold(v[0].s[0]) == fold(v[1].s[0]))
		c.nontrivial();
	int cmp[3][3][3];
	// all pairs, in an order of the case's own, so that any pair may be the first or the last
	const int steps[] = {1, 2, 4, 5, 7, 8};
	int first = (int) c.draw(9), step = c.pick(steps);
	for (int n = 0; n < 9; ++n) {
			int i = (first + n * step) % 9 / 3, j = (first + n * step) % 9 % 3;
			Opt &a = v[i], &b = v[j];
			cmp[0][i][j] = sgn(String::CompareOrdinal(a.p, b.p));
			cmp[1][i][j] = sgn(String::Compare(a.p, b.p));
			cmp[2][i][j] = sgn(String::Compare(a.p, b.p, true));
			bool same = a.null == b.null && (a.null || a.s == b.s);
			for (int k = 0; k < 3; ++k) {
				int want = a.null || b.null ? (int) b.null - (int) a.null : k == 0 ? ordinal(a.s, b.s) : culture(a.s, b.s, k == 2);
				if (cmp[k][i][j] != want)
					c.fail("%s comparison of %s and %s gives %d, expected %d", k == 0 ? "ordinal" : k == 1 ? "culture" : "case-ignoring", show(a).c_str(), show(b).c_str(), cmp[k][i][j], want);
			}
			if (String::Equals(a.p, b.p) != same || String::op_Inequality(a.p, b.p) == same)
				c.fail("equality of %s and %s", show(a).c_str(), show(b).c_str());
			if (!a.null) {
				if (sgn(a.p->CompareTo(b.p)) != cmp[1][i][j] || sgn(a.p->CompareTo((Object*) b.p)) != cmp[1][i][j])
					c.fail("CompareTo of %s and %s differs from Compare", show(a).c_str(), show(b).c_str());
				bool e[] = {a.p->Equals(b.p) != 0, a.p->Equals((Object*) b.p) != 0, Object::Equals(a.p, b.p) != 0, ((Object*) a.p)->Equals((Object*) b.p) != 0};
				for (bool x : e)
					if (x != same)
						c.fail("equality forms of %s and %s: %d %d %d %d", show(a).c_str(), show(b).c_str(), e[0], e[1], e[2], e[3]);
			}
			if (!a.null && !b.null) {
				bool x = String::Equals(a.p, (Object*) b.p), y = String::Equals((Object*) a.p, b.p);
				if (x != same || y != same)
					c.fail("mixed equality of %s and %s: %d %d", show(a).c_str(), show(b).c_str(), x, y);
			}
		}
	for (auto& m : cmp)
		for (int i = 0; i < 3; ++i)
			for (int j = 0; j < 3; ++j) {
				if (m[i][j] != -m[j][i])
					c.fail("comparison is not antisymmetric");
				for (int k = 0; k < 3; ++k)
					if (m[i][j] <= 0 && m[j][k] <= 0 && m[i][k] > 0)
						c.fail("comparison is not transitive");
			}
}
}
PBT_PROP(whole_strings, 12000) { wholeStrings(c); }
PBT_PROP(long_strings, 60) {
	LongTexts on(2);
	wholeStrings(c);
}
PBT_PROP(huge_strings, 2) {
	LongTexts on(2, true);
	wholeStrings(c);
}
namespace {
void ranges_(Case& c) {
	WS s1 = genStr(c, 12), s2 = variant(c, s1);
	bool oneObject = c.chance(1, 6);                              // two ranges of one string
	if (oneObject)
		s2 = s1;
	String *a = mk(s1), *b = oneObject ? a : mk(s2);
	int i1, i2, n;
	if (c.chance(1, 4)) {
		i1 = (int) c.near0(-2, (int) s1.size() + 2);
		i2 = (int) c.near0(-2, (int) s2.size() + 2);
		n = c.chance(1, 4) ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) c.near0(-2, 14);
		if (c.chance(1, 6))
			i1 = (int) c.edge(INT32_MIN, INT32_MAX);
	} else {
		i1 = (int) c.draw(s1.size() + 1);
		i2 = c.coin() ? std::min(i1, (int) s2.size()) : (int) c.draw(s2.size() + 1);
		n = (int) (longOdds() ? c.edge(0, (int64_t) s1.size() + 3) : (int64_t) c.draw(14));
	}
	c.note("%s[%d] %s[%d]%s length %d", show(s1).c_str(), i1, show(s2).c_str(), i2, oneObject ? " (the same object)" : "", n);
	bool bad = n < 0 || i1 < 0 || i2 < 0 || i1 > (int) s1.size() || i2 > (int) s2.size();
	if (!bad && n > 0 && i1 < (int) s1.size() && i2 < (int) s2.size())
		c.nontrivial();
	for (int k = 0; k < 3; ++k) {
		Int32 r = 0, q = 0;
		Ex e = tryCall([&] {
			r = k == 0 ? String::CompareOrdinal(a, i1, b, i2, n) : String::Compare(a, i1, b, i2, n, k == 2);
		});
		if (bad) {
			c.label("out of range");
			// an empty comparison may be answered without looking at the indexes
			if (e == ExNone && !(n == 0 && r == 0))
				c.fail("comparing an out-of-range substring gave %d", r);
			continue;
		}
		if (e != ExNone)
			c.fail("comparing valid substrings raised %s", exName(e));
		WS x = s1.substr((size_t) i1, (size_t) n), y = s2.substr((size_t) i2, (size_t) n);
		int want = k == 0 ? ordinal(x, y) : culture(x, y, k == 2);
		if (sgn(r) != want)
			c.fail("%s comparison of %s and %s gives %d, expected %d", k == 0 ? "ordinal" : k == 1 ? "culture" : "case-ignoring", show(x).c_str(), show(y).c_str(), r, want);
		q = k == 0 ? String::CompareOrdinal(b, i2, a, i1, n) : String::Compare(b, i2, a, i1, n, k == 2);
		if (sgn(q) != -want)
			c.fail("range comparison is not antisymmetric");
		// the form over zero-terminated characters, in memory that holds no more than those
		if (x.size() < 300 && y.size() < 300 && s1.find(L'\0') == WS::npos && s2.find(L'\0') == WS::npos) {
			auto copy = [](const WS& w) {
				std::unique_ptr<Char[]> p(new Char[w.size() + 1]);
				std::copy(w.c_str(), w.c_str() + w.size() + 1, p.get());
				return p;
			};
			auto p = copy(s1), o = copy(s2);
			Ex f = tryCall([&] { q = String::Compare(p.get(), i1, o.get(), i2, n, k == 2, k == 0); });
			if (f != ExNone || sgn(q) != want)
				c.fail("comparison of the characters %s and %s gives %d or raises %s, expected %d", show(x).c_str(), show(y).c_str(), q, exName(f), want);
		}
	}
	// null operands
	Int32 r1 = 9, r2 = 9, r3 = 9;
	Ex e1 = tryCall([&] { r1 = String::CompareOrdinal(nullptr, 0, b, 0, n < 0 ? 0 : n); });
	Ex e2 = tryCall([&] { r2 = String::Compare(a, 0, nullptr, 0, n < 0 ? 0 : n); });
	Ex e3 = tryCall([&] { r3 = String::Compare(nullptr, 0, nullptr, 0, n < 0 ? 0 : n); });
	if (e1 == ExNone && sgn(r1) != -1 && n > 0)
		c.fail("null against a substring gives %d", r1);
	if (e2 == ExNone && sgn(r2) != 1 && n > 0)
		c.fail("a substring against null gives %d", r2);
	if (e3 == ExNone && r3 != 0)
		c.fail("null against null gives %d", r3);
}
}
PBT_PROP(ranges, 12000) { ranges_(c); }
PBT_PROP(long_ranges, 60) {
	LongTexts on(2);
	ranges_(c);
}
PBT_PROP(huge_ranges, 3) {
	LongTexts on(2, true);
	ranges_(c);
}
PBT_PROP(other_types, 300) {
	String* a = mk(genStr(c, 4));
	Object* o;
	switch (c.draw(4)) {
	case 0: o = new Int32Value((Int32) c.draw(10)); break;
	case 1: o = new CharValue(L'a'); break;
	case 2: o = new StringBuilder(a); break;
	default: o = new Object();
	}
	c.note("%s against type %d", show(ws(a)).c_str(), (int) o->GetRawDataType());
	c.nontrivial();
	if (a->Equals(o) || Object::Equals(a, o) || String::Equals(a, o) || String::Equals(o, a))
		c.fail("a string equals a non-string");
	Ex e = tryCall([&] { a->CompareTo(o); });
	if (e != ExArgument)
		c.fail("comparing a string with a non-string gave %s", exName(e));
	if (a->CompareTo((String*) nullptr) <= 0 || a->CompareTo((Object*) nullptr) <= 0)
		c.fail("a string does not sort above null");
}
