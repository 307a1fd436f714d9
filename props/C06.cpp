// C06: string searches find exactly the matches in the requested range.
#define OWN_STRINGS
#include "lib.h"
#include "changing.h"
PBT_MAIN("C06", "A case is a subject over a tiny alphabet (so partial and overlapping matches are common), a pattern cut from it or mutated, and a range (valid, at the edges, or outside); every overload of the forward, backward and any-of searches and the "
	"containment, prefix and suffix tests are compared with a naive scan over all positions. Non-trivial: a pattern of two or more characters or a range smaller than the subject, with at least one partial match; distinct by generated choices.")

namespace {
bool matchAt(const WS& s, const WS& p, int at) { return at >= 0 && at + p.size() <= s.size() && s.compare((size_t) at, p.size(), p) == 0; }
// First position in [from, from+count) at which the whole match lies inside the range.
int first(const WS& s, const WS& p, int from, int count) {
	for (int i = from; i + (int) p.size() <= from + count; ++i)
		if (matchAt(s, p, i))
			return i;
	return -1;
}
// Last position at which the whole match lies inside [start-count+1, start].
int last(const WS& s, const WS& p, int start, int count) {
	for (int i = start + 1 - (int) p.size(); i >= start - count + 1; --i)
		if (matchAt(s, p, i))
			return i;
	return -1;
}
int firstAny(const WS& s, const WS& set, int from, int count) {
	for (int i = from; i < from + count; ++i)
		if (set.find(s[(size_t) i]) != WS::npos)
			return i;
	return -1;
}
int lastAny(const WS& s, const WS& set, int start, int count) {
	for (int i = start; i > start - count; --i)
		if (set.find(s[(size_t) i]) != WS::npos)
			return i;
	return -1;
}
WS subject(Case& c, size_t n) {
	if (longOdds() && c.chance(1, longOdds()))
		return genLong(c, 1);
	WS s;
	size_t len = c.size(n);
	bool tiny = c.chance(2, 3);
	for (size_t i = 0; i < len; ++i)
		s += tiny ? (wchar_t) (L'a' + c.draw(2)) : genChar(c);
	if (c.chance(1, 15) && len)
		s[(size_t) c.draw(len)] = 0;
	return s;
}
void check(Case& c, const char* what, const WS& s, const WS& p, Ex e, int got, int want) {
	if (e != ExNone || got != want)
		c.fail("%s(%s) on %s gave %d (%s), expected %d", what, show(p).c_str(), show(s).c_str(), got, exName(e), want);
}
WS set_(const WS& p) { return p.substr(0, 40); }
#define CALL(var, expr) Int32 var = -99; Ex var##_e = tryCall([&] { var = expr; })
int arg(Case& c, int len) {
	return c.chance(1, 5) ? (int) c.edge(INT32_MIN, INT32_MAX) : longOdds() ? (int) c.edge(-2, len + 2) : (int) c.near0(-2, len + 2);
}
}
static void wholeBody(Case& c) {
	WS s = subject(c, 14), p = genNeedle(c, s, 5);
	String *a = mk(s), *b = mk(p);
	c.note("%s find %s", show(s).c_str(), show(p).c_str());
	if (p.size() > 1 && s.find(p[0]) != WS::npos)
		c.nontrivial();
	int n = (int) s.size(), want = first(s, p, 0, n);
	c.label(want >= 0 ? "found" : "absent");
	CALL(i1, a->IndexOf(b));
	check(c, "IndexOf", s, p, i1_e, i1, want);
	CALL(i2, a->LastIndexOf(b));
	if (p.empty()) {
		if (i2_e != ExNone || i2 < 0 || i2 > n)
			c.fail("LastIndexOf of the empty text on %s gave %d (%s)", show(s).c_str(), i2, exName(i2_e));
	} else
		check(c, "LastIndexOf", s, p, i2_e, i2, last(s, p, n - 1, n));
	CALL(i3, a->Contains(b));
	check(c, "Contains", s, p, i3_e, i3, want >= 0);
	CALL(i4, a->StartsWith(b));
	check(c, "StartsWith", s, p, i4_e, i4, matchAt(s, p, 0));
	CALL(i5, a->EndsWith(b));
	check(c, "EndsWith", s, p, i5_e, i5, matchAt(s, p, n - (int) p.size()));
	wchar_t ch = p.empty() ? genChar(c) : c.chance(1, 8) ? related(c, p[0]) : p[0];
	WS one(1, ch);
	CALL(i6, a->IndexOf(ch));
	check(c, "IndexOf char", s, one, i6_e, i6, first(s, one, 0, n));
	CALL(i7, a->LastIndexOf(ch));
	check(c, "LastIndexOf char", s, one, i7_e, i7, last(s, one, n - 1, n));
	CALL(i8, a->EndsWith(ch));
	check(c, "EndsWith char", s, one, i8_e, i8, n > 0 && s[(size_t) n - 1] == ch);
	Array* set = mkChars(set_(p));
	CALL(i9, a->IndexOfAny(set));
	check(c, "IndexOfAny", s, p, i9_e, i9, firstAny(s, set_(p), 0, n));
	CALL(i10, a->LastIndexOfAny(set));
	check(c, "LastIndexOfAny", s, p, i10_e, i10, lastAny(s, set_(p), n - 1, n));
	CALL(i11, a->IndexOf(a));
	check(c, "IndexOf itself", s, s, i11_e, i11, 0);
	CALL(i12, a->StartsWith(a));
	CALL(i13, a->EndsWith(a));
	CALL(i14, a->Contains(a));
	if (i12 != 1 || i13 != 1 || i14 != 1)
		c.fail("%s does not start, end with or contain itself", show(s).c_str());
}
static void validBody(Case& c) {
	WS s = subject(c, 14), p = genNeedle(c, s, 5);
	int n = (int) s.size();
	String *a = mk(s), *b = mk(p);
	if (c.chance(1, 12)) {                                          // the subject itself
		p = s;
		b = a;
	}
	int from = (int) (longOdds() && c.coin() ? c.edge(0, n) : (int64_t) c.draw((uint64_t) n + 1)), count = c.chance(1, 4) ? n - from : (int) c.draw((uint64_t) (n - from) + 1);
	wchar_t ch = p.empty() ? genChar(c) : p[(size_t) c.draw(p.size())];
	if (c.chance(1, 8))
		ch = related(c, ch);
	WS one(1, ch);
	Array* set = mkChars(set_(p));
	c.note("%s find %s or %s in [%d,+%d]", show(s).c_str(), show(p).c_str(), show(ch).c_str(), from, count);
	if (first(s, p.substr(0, 1), 0, n) >= 0 && count < n)
		c.nontrivial();
	CALL(a1, a->IndexOf(b, from));
	check(c, "IndexOf from", s, p, a1_e, a1, first(s, p, from, n - from));
	CALL(a2, a->IndexOf(b, from, count));
	check(c, "IndexOf range", s, p, a2_e, a2, first(s, p, from, count));
	CALL(a3, a->IndexOf(ch, from));
	check(c, "IndexOf char from", s, one, a3_e, a3, first(s, one, from, n - from));
	CALL(a4, a->IndexOf(ch, from, count));
	check(c, "IndexOf char range", s, one, a4_e, a4, first(s, one, from, count));
	CALL(a5, a->IndexOfAny(set, from));
	check(c, "IndexOfAny from", s, p, a5_e, a5, firstAny(s, set_(p), from, n - from));
	CALL(a6, a->IndexOfAny(set, from, count));
	check(c, "IndexOfAny range", s, p, a6_e, a6, firstAny(s, set_(p), from, count));
	if (n == 0)
		return;
	int start = (int) c.draw((uint64_t) n), back = (int) c.draw((uint64_t) start + 2);
	c.note("backward from %d count %d", start, back);
	if (!p.empty()) {
		CALL(b1, a->LastIndexOf(b, start));
		check(c, "LastIndexOf from", s, p, b1_e, b1, last(s, p, start, start + 1));
		CALL(b2, a->LastIndexOf(b, start, back));
		check(c, "LastIndexOf range", s, p, b2_e, b2, last(s, p, start, back));
	} else {
		CALL(b1, a->LastIndexOf(b, start, back));
		if (b1_e != ExNone || b1 < start - back || b1 > start + 1)
			c.fail("LastIndexOf of the empty text from %d count %d gave %d (%s)", start, back, b1, exName(b1_e));
	}
	CALL(b3, a->LastIndexOf(ch, start));
	check(c, "LastIndexOf char from", s, one, b3_e, b3, last(s, one, start, start + 1));
	CALL(b4, a->LastIndexOf(ch, start, back));
	check(c, "LastIndexOf char range", s, one, b4_e, b4, last(s, one, start, back));
	CALL(b5, a->LastIndexOfAny(set, start));
	check(c, "LastIndexOfAny from", s, p, b5_e, b5, lastAny(s, set_(p), start, start + 1));
	CALL(b6, a->LastIndexOfAny(set, start, back));
	check(c, "LastIndexOfAny range", s, p, b6_e, b6, lastAny(s, set_(p), start, back));
}
static void invalidBody(Case& c) {
	WS s = subject(c, 8), p = genNeedle(c, s, 3);
	int n = (int) s.size();
	String *a = mk(s), *b = mk(p);
	if (c.chance(1, 12)) {                                          // the subject itself
		p = s;
		b = a;
	}
	int from = arg(c, n), count = arg(c, n);
	wchar_t ch = p.empty() ? L'a' : p[0];
	WS one(1, ch);
	Array* set = mkChars(set_(p));
	c.note("%s find %s in [%d,+%d]", show(s).c_str(), show(p).c_str(), from, count);
	bool okFrom = from >= 0 && from <= n;
	bool okRange = okFrom && count >= 0 && (int64_t) from + count <= n;
	if (!okRange)
		c.nontrivial();
	struct {
		const char* what;
		bool ok;
		int want;
		std::function<Int32()> f;
	} fwd[] = {
		{"IndexOf from", okFrom, okFrom ? first(s, p, from, n - from) : 0, [&] { return a->IndexOf(b, from); }},
		{"IndexOf range", okRange, okRange ? first(s, p, from, count) : 0, [&] { return a->IndexOf(b, from, count); }},
		{"IndexOf char from", okFrom, okFrom ? first(s, one, from, n - from) : 0, [&] { return a->IndexOf(ch, from); }},
		{"IndexOf char range", okRange, okRange ? first(s, one, from, count) : 0, [&] { return a->IndexOf(ch, from, count); }},
		{"IndexOfAny from", okFrom, okFrom ? firstAny(s, set_(p), from, n - from) : 0, [&] { return a->IndexOfAny(set, from); }},
		{"IndexOfAny range", okRange, okRange ? firstAny(s, set_(p), from, count) : 0, [&] { return a->IndexOfAny(set, from, count); }},
	};
	for (auto& t : fwd) {
		Int32 r = -99;
		Ex e = tryCall([&] { r = t.f(); });
		if (t.ok ? e != ExNone || r != t.want : e == ExNone)
			c.fail("%s [%d,+%d] of %s in %s gave %d (%s), expected %s", t.what, from, count, show(p).c_str(), show(s).c_str(), r, exName(e), t.ok ? std::to_string(t.want).c_str() : "an error");
	}
	// Backward: a negative start or count stands for the default in this library; an error is as good.
	int start = from < 0 ? n - 1 : from;
	int64_t back = count < 0 ? (int64_t) start + 1 : count;
	bool inside = start < n && back <= (int64_t) start + 1;
	bool sentinel = from < 0 || count < 0 || n == 0 || start == n;       // .NET reads a start equal to the length as the last position
	struct {
		const char* what;
		bool free;
		int want;
		std::function<Int32()> f;
	} bwd[] = {
		{"LastIndexOf range", p.empty(), inside ? last(s, p, start, (int) back) : -1, [&] { return a->LastIndexOf(b, from, count); }},
		{"LastIndexOf char range", false, inside ? last(s, one, start, (int) back) : -1, [&] { return a->LastIndexOf(ch, from, count); }},
		{"LastIndexOfAny range", false, inside ? lastAny(s, set_(p), start, (int) back) : -1, [&] { return a->LastIndexOfAny(set, from, count); }},
	};
	for (auto& t : bwd) {
		Int32 r = -99;
		Ex e = tryCall([&] { r = t.f(); });
		if (e != ExNone ? inside && !sentinel : t.free ? r < 0 || r > n : inside ? r != t.want : !sentinel || (r != -1 && n == 0))
			c.fail("%s start %d count %d of %s in %s gave %d (%s), expected %d", t.what, from, count, show(p).c_str(), show(s).c_str(), r, exName(e), t.want);
	}
}
PBT_PROP(whole, 8000) { wholeBody(c); }
PBT_PROP(valid_ranges, 9000) { validBody(c); }
PBT_PROP(invalid_ranges, 5000) { invalidBody(c); }
PBT_PROP(long_whole, 50) {
	LongTexts on(1);
	wholeBody(c);
}
PBT_PROP(long_ranges, 60) {
	LongTexts on(1);
	validBody(c);
}
PBT_PROP(long_invalid_ranges, 20) {
	LongTexts on(1);
	invalidBody(c);
}
PBT_PROP(huge_whole, 2) {
	LongTexts on(1, true);
	wholeBody(c);
}
PBT_PROP(huge_ranges, 3) {
	LongTexts on(1, true);
	validBody(c);
}
PBT_PROP(large_sets, 1500) {
	WS s, set = genBigSet(c, s);
	int n = (int) s.size(), from = (int) c.draw((uint64_t) n + 1), count = (int) c.draw((uint64_t) (n - from) + 1);
	c.note("any of %d characters from %s in %s [%d,+%d]", (int) set.size(), show(set.substr(0, 5)).c_str(), show(s).c_str(), from, count);
	c.nontrivial();
	String* a = mk(s);
	Array* arr = mkChars(set);
	CALL(i1, a->IndexOfAny(arr));
	check(c, "IndexOfAny", s, set, i1_e, i1, firstAny(s, set, 0, n));
	CALL(i2, a->IndexOfAny(arr, from));
	check(c, "IndexOfAny from", s, set, i2_e, i2, firstAny(s, set, from, n - from));
	CALL(i3, a->IndexOfAny(arr, from, count));
	check(c, "IndexOfAny range", s, set, i3_e, i3, firstAny(s, set, from, count));
	CALL(i4, a->LastIndexOfAny(arr));
	check(c, "LastIndexOfAny", s, set, i4_e, i4, lastAny(s, set, n - 1, n));
	if (from < n) {
		int back = (int) c.draw((uint64_t) from + 2);
		CALL(i5, a->LastIndexOfAny(arr, from, back));
		check(c, "LastIndexOfAny range", s, set, i5_e, i5, lastAny(s, set, from, back));
	}
}
// The same texts and the same array of characters over and over, the array's content changing in between.
PBT_PROP(changing_sets, 1200) {
	WS s[2] = {subject(c, 10), subject(c, 10)};
	String* a[2] = {mk(s[0]), mk(s[1])};
	ChangingChars set(genNeedle(c, s[0], 4).substr(0, 40));
	size_t rounds = 2 + (size_t) c.draw(6);
	c.note("%d searches of %s and %s, first for %s", (int) rounds, show(s[0]).c_str(), show(s[1]).c_str(), show(set.m).c_str());
	WS before = set.m;
	int j = 0, kind = 0, from = 0, count = 0, back = 0;
	for (size_t k = 0; k < rounds; ++k) {
		if (k == 0 || c.chance(1, 3)) {                             // the same search is usually repeated
			j = (int) c.draw(2);
			kind = (int) c.draw(4);
			from = (int) c.draw((uint64_t) s[j].size() + 1);
			count = (int) c.draw((uint64_t) s[j].size() - (uint64_t) from + 1);
			back = (int) c.draw((uint64_t) from + 2);
		}
		int n = (int) s[j].size();
		switch (kind) {
		case 0: {
			CALL(i1, a[j]->IndexOfAny(set.a));
			check(c, "IndexOfAny", s[j], set.m, i1_e, i1, firstAny(s[j], set.m, 0, n));
			break;
		}
		case 1: {
			CALL(i2, a[j]->IndexOfAny(set.a, from, count));
			check(c, "IndexOfAny range", s[j], set.m, i2_e, i2, firstAny(s[j], set.m, from, count));
			break;
		}
		case 2: {
			CALL(i3, a[j]->LastIndexOfAny(set.a));
			check(c, "LastIndexOfAny", s[j], set.m, i3_e, i3, lastAny(s[j], set.m, n - 1, n));
			break;
		}
		default: {
			if (from >= n)
				break;
			CALL(i4, a[j]->LastIndexOfAny(set.a, from, back));
			check(c, "LastIndexOfAny range", s[j], set.m, i4_e, i4, lastAny(s[j], set.m, from, back));
		}
		}
		if (c.chance(3, 4))
			set.change(c, n && c.chance(3, 4) ? s[j][(size_t) c.draw((uint64_t) n)] : genChar(c));
		if (set.m != before)
			c.nontrivial();
	}
}
PBT_PROP(null_and_wrong_sets, 600) {
	WS s = subject(c, 6);
	String* a = mk(s);
	int n = (int) s.size();
	c.note("null and wrong patterns on %s", show(s).c_str());
	c.nontrivial();
	Array* ints = new Array(Int32Type, 2);
	Array* grid = new Array(CharType, 2, 2);
	std::vector<std::function<void()>> bad{
		[&] { a->IndexOf((String*) nullptr); }, [&] { a->IndexOf((String*) nullptr, 0); }, [&] { a->IndexOf((String*) nullptr, 0, n); },
		[&] { a->LastIndexOf((String*) nullptr); }, [&] { a->LastIndexOf((String*) nullptr, n - 1); }, [&] { a->LastIndexOf((String*) nullptr, n - 1, n); },
		[&] { a->IndexOfAny(nullptr); }, [&] { a->IndexOfAny(nullptr, 0); }, [&] { a->IndexOfAny(nullptr, 0, n); }, [&] { a->LastIndexOfAny(nullptr); },
		[&] { a->Contains(nullptr); }, [&] { a->StartsWith(nullptr); }, [&] { a->EndsWith((String*) nullptr); },
		[&] { a->IndexOfAny(ints); }, [&] { a->LastIndexOfAny(ints); }, [&] { a->IndexOfAny(grid); }, [&] { a->LastIndexOfAny(grid); },
		[&] { a->IndexOfAny(ints, 0); }, [&] { a->IndexOfAny(grid, 0, n); }};
	for (size_t i = 0; i < bad.size(); ++i)
		if (tryCall(bad[i]) == ExNone)
			c.fail("search %d with a null or unsuitable pattern did not raise an error", (int) i);
}
