// C07: string-producing operations return exactly the specified text.
#define OWN_STRINGS
#include "values.h"
#include "userobj.h"
#include "changing.h"
#include <cstdarg>
PBT_MAIN("C07", "A case is a subject text (tiny alphabet, white space, wide characters, embedded NULs, lengths around the builder's internal size included) and one family of operations with arguments that are valid, at the edges or outside the operand; "
	"the result's characters, length and terminator are compared with the same operation on std::wstring, and the operands are re-read afterwards. Non-trivial: the result differs from the subject, or the arguments are rejected; distinct by generated choices.")

namespace {
const int Reject = 0, Accept = 1, Either = 2;
template<class F> void op(Case& c, const char* what, const std::string& args, int mode, const WS& want, F f) {
	String* r = nullptr;
	Ex e = tryCall([&] { r = f(); });
	if (e != ExNone) {
		if (mode == Accept)
			c.fail("%s(%s) raised %s, expected %s", what, args.c_str(), exName(e), show(want).c_str());
		return;
	}
	if (mode == Reject)
		c.fail("%s(%s) returned %s, expected an error", what, args.c_str(), show(ws(r)).c_str());
	expectStr(c, (std::string(what) + "(" + args + ")").c_str(), r, want);
}
std::string cat(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string cat(const char* fmt, ...) {
	char b[2000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	return b;
}
WS subject(Case& c) {
	if (longOdds() && c.chance(1, longOdds()))
		return genLong(c, c.coin());
	WS s;
	switch (c.weighted({8, 2, 1})) {
	case 0:
		s = genStr(c, 14, c.coin());
		break;
	case 1:
		s = genStr(c, 6);
		s = WS(c.draw(4), L' ') + s + WS(c.draw(4), c.pick({L' ', L'\t', L'\n', (wchar_t) 0x3000, (wchar_t) 0xA0, L'a'}));
		break;
	default: {
		size_t n = (size_t) c.range(120, 140);
		WS base = genStr(c, 5, 1) + L"x";
		while (s.size() < n)
			s += base;
		s.resize(n);
	}
	}
	if (!s.empty() && c.chance(1, 12))
		s[(size_t) c.draw(s.size())] = 0;
	return s;
}
int arg(Case& c, int64_t len) {
	return c.chance(1, 8) ? (int) c.edge(INT32_MIN, INT32_MAX) : longOdds() ? (int) c.edge(-2, len + 2) : (int) c.near0(-2, len + 2);
}
// An index or count that is usually valid.
int validArg(Case& c, int64_t len) { return c.chance(1, 4) ? arg(c, len) : (int) c.draw((uint64_t) len + 1); }
void unchanged(Case& c, String* s, const WS& w) {
	if (ws(s) != w)
		c.fail("the operand changed from %s to %s", show(w).c_str(), show(ws(s)).c_str());
}
WS replaceAll(const WS& s, const WS& a, const WS& b) {
	WS r;
	for (size_t i = 0; i < s.size();) {
		if (s.compare(i, a.size(), a) == 0) {
			r += b;
			i += a.size();
		} else
			r += s[i++];
	}
	return r;
}
bool ambiguousWhite(wchar_t ch) { return ch > 127 && ch != 0xA0 && ch != 0x3000 && !(ch >= 0x2000 && ch <= 0x200A) && (ch == 0x200B || ch == 0xFEFF || ch == 0x85 || ch == 0x1680 || ch == 0x2028 || ch == 0x2029 || ch == 0x202F || ch == 0x205F || ch == 0x180E); }
bool white(wchar_t ch) { return (ch >= 9 && ch <= 13) || ch == 32 || ch == 0xA0 || ch == 0x3000 || (ch >= 0x2000 && ch <= 0x200A); }
WS trim(const WS& s, bool a, bool b, std::function<bool(wchar_t)> in) {
	size_t from = 0, to = s.size();
	while (a && from < to && in(s[from]))
		++from;
	while (b && to > from && in(s[to - 1]))
		--to;
	return s.substr(from, to - from);
}
// An object to concatenate, and its text.
Object* genObj(Case& c, WS& text) {
	switch (c.weighted({5, 3, 2, 1, 1, 1, 2})) {
	case 0:
		text = genStr(c, 5);
		return mk(text);
	case 6:
		return user::thing(c, text);
	case 1:
		text = L"";
		return nullptr;
	case 2: {
		const IntType& t = c.pick(intTypes());
		i128 v = genInt(c, t);
		text = wide(dec(v));
		return t.box(v);
	}
	case 3:
		text = c.coin() ? L"True" : L"False";
		return new BooleanValue(text == L"True");
	case 4:
		text = WS(1, genChar(c));
		return new CharValue(text[0]);
	default:
		text = genStr(c, 8);
		return new StringBuilder(mk(text));
	}
}
}
static void substring_remove_insert_body(Case& c) {
	WS w = subject(c), v = genStr(c, 6);
	int n = (int) w.size();
	String* s = mk(w);
	int i = validArg(c, n), k = i >= 0 && i <= n && c.chance(3, 4) ? (int) c.draw((uint64_t) (n - i) + 1) : arg(c, n);
	c.note("%s at %d count %d insert %s", show(w).c_str(), i, k, show(v).c_str());
	bool okI = i >= 0 && i <= n, okR = okI && k >= 0 && k <= n - i;
	if (!okR || k > 0)
		c.nontrivial();
	std::string ai = std::to_string(i), ak = ai + "," + std::to_string(k);
	op(c, "Substring", ai, okI, okI ? w.substr(i) : L"", [&] { return s->Substring(i); });
	op(c, "Substring", ak, okR ? Accept : okI && k < 0 ? Either : Reject, okR ? w.substr(i, k) : okI ? w.substr(i) : L"", [&] { return s->Substring(i, k); });
	op(c, "Remove", ai, okI ? i < n ? Accept : Either : Reject, okI ? w.substr(0, i) : L"", [&] { return s->Remove(i); });
	op(c, "Remove", ak, okR ? Accept : okI && k < 0 ? Either : Reject, okR ? w.substr(0, i) + w.substr(i + k) : okI ? w.substr(0, i) : L"", [&] { return s->Remove(i, k); });
	String* t = mk(v);
	op(c, "Insert", ai + "," + show(v), okI, okI ? w.substr(0, i) + v + w.substr(i) : L"", [&] { return s->Insert(i, t); });
	op(c, "Insert itself", ai, okI, okI ? w.substr(0, i) + w + w.substr(i) : L"", [&] { return s->Insert(i, s); });
	op(c, "Insert", "null", Reject, L"", [&] { return s->Insert(i, nullptr); });
	unchanged(c, s, w);
	unchanged(c, t, v);
}
static void replace_body(Case& c) {
	WS w;
	if (!longOdds() && c.chance(2, 3)) {
		size_t n = c.size(20);
		for (size_t i = 0; i < n; ++i)
			w += (wchar_t) (L'a' + c.draw(2));
	} else
		w = subject(c);
	WS a = genNeedle(c, w, 4), b = genStr(c, 6, 1);
	if (b.size() > 100 && !a.empty())                               // at most about a million characters
		b.resize(std::min(b.size(), 1000000 / (w.size() / a.size() + 1)));
	while (w.size() > 1000 && !a.empty()) {                         // every replacement may move the rest of the text: bound the work
		size_t many = 0;
		for (size_t at = 0; (at = w.find(a, at)) != WS::npos; at += a.size())
			++many;
		if ((double) many * (double) std::max(w.size(), w.size() + many * b.size() - many * a.size()) < 3e8)
			break;
		w.resize(w.size() / 2);
	}
	wchar_t x = w.empty() ? genChar(c) : w[(size_t) c.draw(w.size())], y = genChar(c);
	if (c.chance(1, 8))
		x = related(c, x);
	String *s = mk(w), *sa = mk(a), *sb = mk(b);
	c.note("%s replace %s with %s, %s with %s", show(w).c_str(), show(a).c_str(), show(b).c_str(), show(x).c_str(), show(y).c_str());
	WS want = a.empty() ? w : replaceAll(w, a, b);
	if (want != w)
		c.nontrivial();
	op(c, "Replace", show(a) + "," + show(b), a.empty() ? Reject : Accept, want, [&] { return s->Replace(sa, sb); });
	op(c, "Replace", show(a) + ",null", a.empty() ? Reject : Accept, a.empty() ? w : replaceAll(w, a, L""), [&] { return s->Replace(sa, nullptr); });
	op(c, "Replace", "null", Reject, L"", [&] { return s->Replace(nullptr, sb); });
	if (!w.empty())
		op(c, "Replace itself by itself", show(w), Accept, w, [&] { return s->Replace(s, s); });
	if (!a.empty()) {
		op(c, "Replace a text by itself", show(a), Accept, w, [&] { return s->Replace(sa, sa); });
		if (w.size() < 600)
			op(c, "Replace by the whole", show(a), Accept, replaceAll(w, a, w), [&] { return s->Replace(sa, s); });
	}
	if (!w.empty())
		op(c, "Replace itself", show(w), Accept, b, [&] { return s->Replace(s, sb); });
	op(c, "Replace", show(x) + "," + show(y), Accept, replaceAll(w, WS(1, x), WS(1, y)), [&] { return s->Replace((Char) x, (Char) y); });
	unchanged(c, s, w);
	unchanged(c, sa, a);
	unchanged(c, sb, b);
}
static void pad_body(Case& c) {
	WS w = subject(c);
	int n = (int) w.size();
	String* s = mk(w);
	wchar_t ch = genChar(c);
	int width = c.chance(1, 10) ? (int) c.range(INT32_MIN, -1) : c.coin() ? n + (int) c.near0(-3, 12) : longOdds() ? (int) genLongLen(c) : (int) c.draw(300);
	c.note("%s to %d with %s", show(w).c_str(), width, show(ch).c_str());
	if (width > n || width < 0)
		c.nontrivial();
	size_t extra = width > n ? (size_t) (width - n) : 0;
	op(c, "PadLeft", cat("%d", width), width >= 0, WS(extra, L' ') + w, [&] { return s->PadLeft(width); });
	op(c, "PadRight", cat("%d", width), width >= 0, w + WS(extra, L' '), [&] { return s->PadRight(width); });
	op(c, "PadLeft", cat("%d,%s", width, show(ch).c_str()), width >= 0, WS(extra, ch) + w, [&] { return s->PadLeft(width, ch); });
	op(c, "PadRight", cat("%d,%s", width, show(ch).c_str()), width >= 0, w + WS(extra, ch), [&] { return s->PadRight(width, ch); });
	unchanged(c, s, w);
}
static void trim_body(Case& c) {
	WS w;
	size_t k = c.size(10);
	static const wchar_t ends[] = {L' ', L'a', L'\t', L'b', L'\n', L'\r', L'\v', L'\f', 0xA0, 0x2003, 0x3000, L'c', 0x8, 0xE, 0x1F, 0x21, 0};
	for (size_t i = 0; i < k; ++i)
		w += c.chance(1, 8) ? genChar(c) : ends[c.draw(17)];
	if (longOdds())
		w = WS(genLongLen(c), ends[c.draw(17)]) + w + genStr(c, 5) + (c.coin() ? WS(genLongLen(c), ends[c.draw(17)]) : WS());
	for (wchar_t& ch : w)
		if (ambiguousWhite(ch))
			ch = L'z';
	WS set = c.chance(1, 6) ? WS() : genNeedle(c, w, 4).substr(0, 60);
	String* s = mk(w);
	Array* arr = c.chance(1, 10) ? nullptr : mkChars(set);
	c.note("%s trim %s", show(w).c_str(), arr ? show(set).c_str() : "null");
	auto in = [&](wchar_t ch) { return arr == nullptr || set.empty() ? white(ch) : set.find(ch) != WS::npos; };
	if (trim(w, true, true, in) != w || trim(w, true, true, white) != w)
		c.nontrivial();
	op(c, "Trim", "", Accept, trim(w, true, true, white), [&] { return s->Trim(); });
	op(c, "Trim", show(set), Accept, trim(w, true, true, in), [&] { return s->Trim(arr); });
	op(c, "TrimStart", show(set), Accept, trim(w, true, false, in), [&] { return s->TrimStart(arr); });
	op(c, "TrimEnd", show(set), Accept, trim(w, false, true, in), [&] { return s->TrimEnd(arr); });
	op(c, "TrimStart", "null", Accept, trim(w, true, false, white), [&] { return s->TrimStart(nullptr); });
	op(c, "TrimEnd", "null", Accept, trim(w, false, true, white), [&] { return s->TrimEnd(nullptr); });
	Array* wrong = new Array(Int32Type, 2);
	op(c, "Trim", "Int32[2]", Reject, L"", [&] { return s->Trim(wrong); });
	op(c, "TrimStart", "Int32[2]", Reject, L"", [&] { return s->TrimStart(wrong); });
	op(c, "TrimEnd", "Int32[2]", Reject, L"", [&] { return s->TrimEnd(wrong); });
	if (!set.empty()) {
		Array* two = new Array(CharType, 2, (Int32) set.size());
		op(c, "Trim", "Char[,]", Reject, L"", [&] { return s->Trim(two); });
		op(c, "TrimStart", "Char[,]", Reject, L"", [&] { return s->TrimStart(two); });
		op(c, "TrimEnd", "Char[,]", Reject, L"", [&] { return s->TrimEnd(two); });
	}
	unchanged(c, s, w);
}
static void construct_body(Case& c) {
	WS w = subject(c);
	int n = (int) w.size();
	int i = validArg(c, n), k = i >= 0 && i <= n && c.chance(3, 4) ? (int) c.draw((uint64_t) (n - i) + 1) : arg(c, n);
	c.note("from %s [%d,+%d]", show(w).c_str(), i, k);
	bool okI = i >= 0 && i <= n, okR = okI && k >= 0 && k <= n - i;
	if (okR ? k < n : true)
		c.nontrivial();
	Array* a = mkChars(w);
	std::string ai = std::to_string(i), ak = ai + "," + std::to_string(k);
	op(c, "String(Char[])", show(w), Accept, w, [&] { return new String(a); });
	op(c, "String(Char[],start,count)", ak, okR ? Accept : okI && k < 0 ? Either : Reject, okR ? w.substr(i, k) : okI ? w.substr(i) : L"", [&] { return new String(a, i, k); });
	op(c, "String(null array)", "", Either, L"", [&] { return new String((Array*) nullptr); });
	Array* wrong = new Array(Int16Type, n);
	op(c, "String(Int16[])", "", Reject, L"", [&] { return new String(wrong); });
	if (w.find(L'\0') == WS::npos) {
		op(c, "String(text)", show(w), Accept, w, [&] { return new String(w.c_str()); });
		if (i < 0 || (okR && k >= 0))
			op(c, "String(text,start,count)", ak, okR, okR ? w.substr(i, k) : L"", [&] { return new String(w.c_str(), i, k); });
		op(c, "String(text,start)", ai, okI, okI ? w.substr(i) : L"", [&] { return new String(w.c_str(), i); });
	}
	int count = c.chance(1, 6) ? (int) c.range(INT32_MIN, -1) : longOdds() ? (int) genLongLen(c) : (int) c.draw(200);
	wchar_t ch = c.chance(1, 8) ? 0 : genChar(c);
	op(c, "String(char,count)", cat("%s,%d", show(ch).c_str(), count), count >= 0, count >= 0 ? WS((size_t) count, ch) : L"", [&] { return new String((Char) ch, count); });
	String* s = mk(w);
	op(c, "Copy", show(w), Accept, w, [&] { return String::Copy(s); });
	op(c, "Copy", "null", Reject, w, [&] { return String::Copy(nullptr); });
	op(c, "ToString", show(w), Accept, w, [&] { return s->ToString(); });
	op(c, "Empty", "", Accept, L"", [&] { return String::Empty; });
}
static void characters_body(Case& c) {
	WS w = subject(c);
	int n = (int) w.size();
	String* s = mk(w);
	int i = validArg(c, n), k = i >= 0 && i <= n && c.chance(3, 4) ? (int) c.draw((uint64_t) (n - i) + 1) : arg(c, n);
	bool okI = i >= 0 && i <= n, okR = okI && k >= 0 && k <= n - i;
	int room = (int) c.draw((uint64_t) n + 4), at = validArg(c, room);
	c.note("%s [%d,+%d] into [%d] at %d", show(w).c_str(), i, k, room, at);
	if (!okR || k)
		c.nontrivial();
	auto arrText = [&](const char* what, int mode, const WS& want, std::function<Array*()> f) {
		Array* r = nullptr;
		Ex e = tryCall([&] { r = f(); });
		if (e != ExNone) {
			if (mode == Accept)
				c.fail("%s raised %s", what, exName(e));
			return;
		}
		if (mode == Reject)
			c.fail("%s accepted [%d,+%d] of %d", what, i, k, n);
		if (!r || r->GetElementType() != CharType || r->get_Rank() != 1 || r->get_Length() != (Int32) want.size() || (want.size() && wmemcmp((Char*) r->Address(0), want.data(), want.size())))
			c.fail("%s [%d,+%d] of %s gave another array than %s", what, i, k, show(w).c_str(), show(want).c_str());
	};
	arrText("ToCharArray()", Accept, w, [&] { return s->ToCharArray(); });
	arrText("ToCharArray(start)", okI ? Accept : Reject, okI ? w.substr(i) : L"", [&] { return s->ToCharArray(i); });
	arrText("ToCharArray(start,count)", okR ? Accept : okI && k < 0 ? Either : Reject, okR ? w.substr(i, k) : okI ? w.substr(i) : L"", [&] { return s->ToCharArray(i, k); });
	// copying into an existing array
	WS dest(room, L'#');
	Array* d = mkChars(dest);
	bool ok = okR && at >= 0 && at <= room - k;
	Ex e = tryCall([&] { s->CopyTo(i, d, at, k); });
	if ((e == ExNone) != ok)
		c.fail("CopyTo(%d,[%d],%d,%d) of %s ended with %s", i, room, at, k, show(w).c_str(), exName(e));
	if (ok)
		dest.replace(at, k, w.substr(i, k));
	for (int j = 0; j < room; ++j)
		if (*(Char*) d->Address(j) != dest[j])
			c.fail("CopyTo(%d,[%d],%d,%d) of %s left another character at %d", i, room, at, k, show(w).c_str(), j);
	Array* wrong = new Array(Int32Type, room + 1);
	if (tryCall([&] { s->CopyTo(0, wrong, 0, n ? 1 : 0); }) == ExNone || tryCall([&] { s->CopyTo(0, nullptr, 0, n ? 1 : 0); }) == ExNone)
		c.fail("CopyTo accepted a null or Int32 array");
	// single characters
	bool okC = i >= 0 && i < n;
	Char got = 0, got2 = 0;
	Ex e1 = tryCall([&] { got = s->get_Chars(i); }), e2 = tryCall([&] { got2 = *s->Address(i); });
	if ((e1 == ExNone) != okC || (e2 == ExNone) != okC || (okC && (got != w[i] || got2 != w[i])))
		c.fail("character %d of %s gave %d/%d (%s)", i, show(w).c_str(), got, got2, exName(e1));
	if (s->get_Length() != n || String::IsNullOrEmpty(s) != (n == 0) || !String::IsNullOrEmpty(nullptr))
		c.fail("length or IsNullOrEmpty of %s", show(w).c_str());
	bool blank = true, certain = true;
	for (wchar_t ch : w) {
		certain = certain && (ch < 128 || !(white(ch) || ambiguousWhite(ch)));
		blank = blank && white(ch);
	}
	if (certain && (String::IsNullOrWhiteSpace(s) != blank || !String::IsNullOrWhiteSpace(nullptr)))
		c.fail("IsNullOrWhiteSpace of %s", show(w).c_str());
	unchanged(c, s, w);
}
PBT_PROP(enumerator, 625) {
	WS w = genStr(c, 6);
	if (!w.empty() && c.chance(1, 8))
		w[(size_t) c.draw(w.size())] = 0;
	String* s = mk(w);
	CharEnumerator* en = s->GetEnumerator();
	CharEnumerator* other = s->GetEnumerator();           // a second enumeration is independent
	int pos = -1, opos = -1, n = (int) w.size();
	size_t steps = 1 + c.steps(14, 120);
	c.note("%s, %d steps", show(w).c_str(), (int) steps);
	c.nontrivial();
	for (size_t k = 0; k < steps; ++k) {
		if (c.chance(1, 12)) {
			en->Reset();
			pos = -1;
		} else if (c.chance(1, 5)) {
			bool r = other->MoveNext();
			opos = std::min(opos + 1, n);
			if (r != (opos < n))
				c.fail("second enumerator's MoveNext");
		} else {
			bool r = en->MoveNext();
			pos = std::min(pos + 1, n);
			if (r != (pos < n))
				c.fail("MoveNext over %s at %d returned %d", show(w).c_str(), pos, r);
		}
		for (int which = 0; which < 2; ++which) {
			int p = which ? opos : pos;
			Char ch = 0;
			Ex e = tryCall([&] { ch = (which ? other : en)->get_Current(); });
			if (p < 0 || p >= n ? e != ExInvalidOperation : e != ExNone || ch != w[p])
				c.fail("get_Current over %s at %d gave %d (%s)", show(w).c_str(), p, ch, exName(e));
		}
	}
}
static void case_change_body(Case& c) {
	WS w = subject(c);
	String* s = mk(w);
	c.note("%s", show(w).c_str());
	WS lo = w, up = w;
	for (size_t i = 0; i < w.size(); ++i)
		if (w[i] < 128) {
			lo[i] = w[i] >= L'A' && w[i] <= L'Z' ? w[i] + 32 : w[i];
			up[i] = w[i] >= L'a' && w[i] <= L'z' ? w[i] - 32 : w[i];
		} else {
			lo[i] = CharValue::ToLower(w[i]);
			up[i] = CharValue::ToUpper(w[i]);
		}
	if (lo != w || up != w)
		c.nontrivial();
	op(c, "ToLower", show(w), Accept, lo, [&] { return s->ToLower(); });
	op(c, "ToUpper", show(w), Accept, up, [&] { return s->ToUpper(); });
	op(c, "ToLowerInvariant", show(w), Accept, lo, [&] { return s->ToLowerInvariant(); });
	op(c, "ToUpperInvariant", show(w), Accept, up, [&] { return s->ToUpperInvariant(); });
	unchanged(c, s, w);
}
static void concat_join_body(Case& c) {
	size_t n = c.size(9);
	std::vector<Object*> o;
	std::vector<WS> t(n);
	bool strings = c.chance(1, 3);
	for (size_t i = 0; i < n; ++i)
		if (strings) {
			t[i] = genStr(c, 5);
			o.push_back(c.chance(1, 4) ? (t[i].clear(), nullptr) : mk(t[i]));
		} else
			o.push_back(genObj(c, t[i]));
	WS sep = genStr(c, 3);
	wchar_t sc = genChar(c);
	bool nullSep = c.chance(1, 8);
	if (nullSep)
		sep.clear();
	String* ss = nullSep ? nullptr : mk(sep);
	if (n > 1 && c.chance(1, 5)) {                                  // the same object in several places, the separator as well
		size_t i = (size_t) c.draw(n), j = (size_t) c.draw(n);
		o[j] = o[i];
		t[j] = t[i];
		if (c.coin()) {
			j = (size_t) c.draw(n);
			o[j] = ss;
			t[j] = sep;
		}
	}
	Array* a = mkObjs(o, strings ? StringType : ObjectType);
	int from = validArg(c, (int64_t) n), count = from >= 0 && from <= (int) n && c.chance(3, 4) ? (int) c.draw(n - (size_t) from + 1) : arg(c, (int64_t) n);
	WS all, desc;
	for (auto& x : t) {
		all += x;
		desc += x + L"|";
	}
	c.note("%s separated by %s [%d,+%d]", show(desc).c_str(), show(sep).c_str(), from, count);
	if (n > 1)
		c.nontrivial();
	auto join = [&](const WS& sp, size_t a, size_t b) {
		WS r;
		for (size_t i = a; i < b; ++i)
			r += (i > a ? sp : L"") + t[i];
		return r;
	};
	op(c, "Concat(array)", show(desc), Accept, all, [&] { return String::Concat(a); });
	op(c, "Concat(null array)", "", Reject, all, [&] { return String::Concat((Array*) nullptr); });
	op(c, "Join(text)", show(sep), Accept, join(sep, 0, n), [&] { return String::Join(ss, a); });
	op(c, "Join(char)", show(sc), Accept, join(WS(1, sc), 0, n), [&] { return String::Join((Char) sc, a); });
	op(c, "Join(text,null)", "", Reject, L"", [&] { return String::Join(ss, nullptr); });
	op(c, "Join(char,null)", "", Reject, L"", [&] { return String::Join((Char) sc, nullptr); });
	bool okI = from >= 0 && from <= (int) n, okR = okI && count >= 0 && count <= (int) n - from;
	int mode = okR ? Accept : okI && count < 0 ? Either : Reject;
	size_t lo = okI ? (size_t) from : 0, hi = okR ? lo + (size_t) count : n;
	op(c, "Join(text,range)", cat("%d,%d", from, count), mode, join(sep, lo, hi), [&] { return String::Join(ss, a, from, count); });
	op(c, "Join(char,range)", cat("%d,%d", from, count), mode, join(WS(1, sc), lo, hi), [&] { return String::Join((Char) sc, a, from, count); });
	Object* p[7] = {};
	WS first7;
	for (size_t i = 0; i < n && i < 7; ++i) {
		p[i] = o[i];
		first7 += t[i];
	}
	op(c, "Concat(objects)", show(first7), Accept, first7, [&] { return String::Concat(p[0], p[1], p[2], p[3], p[4], p[5], p[6]); });
	// the same object more than once
	if (n)
		op(c, "Concat(same object)", show(t[0]), Accept, t[0] + t[0] + t[0], [&] { return String::Concat(o[0], o[0], o[0]); });
	Array* wrong = new Array(c.coin() ? Int32Type : CharType, 2);
	op(c, "Concat(primitive array)", "", Reject, L"", [&] { return String::Concat(wrong); });
	op(c, "Join(primitive array)", "", Reject, L"", [&] { return String::Join(ss, wrong); });
	op(c, "Join(primitive array)", "", Reject, L"", [&] { return String::Join((Char) sc, wrong); });
	for (size_t i = 0; i < n; ++i)
		if (o[i] && ws(o[i]->ToString()) != t[i])
			c.fail("operand %d changed", (int) i);
}
PBT_PROP(substring_remove_insert, 2250) { substring_remove_insert_body(c); }
PBT_PROP(replace, 2000) { replace_body(c); }
PBT_PROP(pad, 1250) { pad_body(c); }
PBT_PROP(trim, 2000) { trim_body(c); }
PBT_PROP(trim_large_sets, 800) {
	WS core, w, set = genBigSet(c, core);
	auto in = [&](wchar_t ch) { return set.find(ch) != WS::npos; };
	for (size_t i = 0, k = (size_t) c.draw(4); i < k; ++i)
		w += set[(size_t) c.draw(set.size())];
	w += core;
	for (size_t i = 0, k = (size_t) c.draw(4); i < k; ++i)
		w += set[(size_t) c.draw(set.size())];
	c.note("%s trim %d characters from %s", show(w).c_str(), (int) set.size(), show(set.substr(0, 5)).c_str());
	if (trim(w, true, true, in) != w)
		c.nontrivial();
	String* s = mk(w);
	Array* arr = mkChars(set);
	op(c, "Trim", show(set), Accept, trim(w, true, true, in), [&] { return s->Trim(arr); });
	op(c, "TrimStart", show(set), Accept, trim(w, true, false, in), [&] { return s->TrimStart(arr); });
	op(c, "TrimEnd", show(set), Accept, trim(w, false, true, in), [&] { return s->TrimEnd(arr); });
}
// The same operands over and over, their content changing in between: sets and arrays of characters, arrays of objects,
// builders, and objects of the program's own whose text changes.
PBT_PROP(changing_operands, 1500) {
	WS w = genStr(c, 8);
	for (wchar_t& ch : w)
		if (ambiguousWhite(ch))
			ch = L'z';
	String* s = mk(w);
	ChangingChars set(genNeedle(c, w, 4).substr(0, 40));
	WS bt = genStr(c, 5), tt = genStr(c, 5);
	StringBuilder* b = new StringBuilder(mk(bt));
	user::Thing* t = new user::Thing();
	t->text = mk(tt);
	int64_t number = (int64_t) c.draw(100);
	Array* a = new Array(ObjectType, 5);
	Object* items[5] = {s, b, t, nullptr, nullptr};
	for (int i = 0; i < 4; ++i)
		*(Object**) a->Address(i) = items[i];
	auto put5 = [&] { *(Object**) a->Address(4) = items[4] = new Int64Value(number); };
	put5();
	int order[5] = {0, 1, 2, 3, 4};
	auto all = [&](const WS& sep) {
		WS r;
		for (int i = 0; i < 5; ++i) {
			if (i)
				r += sep;
			switch (order[i]) {
			case 0: r += w; break;
			case 1: r += bt; break;
			case 2: r += tt; break;
			case 4: r += std::to_wstring(number);
			}
		}
		return r;
	};
	size_t rounds = 2 + (size_t) c.draw(7), changes = 0;
	c.note("%d rounds with %s, set %s", (int) rounds, show(w).c_str(), show(set.m).c_str());
	String* sep = mk(L", ");
	int kind = 0;
	for (size_t k = 0; k < rounds; ++k) {
		auto in = [&](wchar_t ch) { return set.m.empty() ? white(ch) : set.m.find(ch) != WS::npos; };
		if (k == 0 || c.chance(1, 3))
			kind = (int) c.draw(9);                                     // the same call is usually repeated
		switch (kind) {
		case 0: op(c, "Trim", show(set.m), Accept, trim(w, true, true, in), [&] { return s->Trim(set.a); }); break;
		case 1: op(c, "TrimStart", show(set.m), Accept, trim(w, true, false, in), [&] { return s->TrimStart(set.a); }); break;
		case 2: op(c, "TrimEnd", show(set.m), Accept, trim(w, false, true, in), [&] { return s->TrimEnd(set.a); }); break;
		case 3: op(c, "new String(array)", show(set.m), Accept, set.m, [&] { return new String(set.a, 0, (Int32) set.m.size()); }); break;
		case 4: op(c, "Concat(array)", "", Accept, all(L""), [&] { return String::Concat(a); }); break;
		case 5: op(c, "Join(text)", "", Accept, all(L", "), [&] { return String::Join(sep, a); }); break;
		case 6: op(c, "Join(char)", "", Accept, all(L"+"), [&] { return String::Join((Char) L'+', a); }); break;
		case 7: op(c, "Concat(objects)", "", Accept, tt + bt + tt + bt, [&] { return String::Concat(t, b, t, b); }); break;
		default: op(c, "builder text", "", Accept, bt, [&] { return b->ToString(); });
		}
		switch (c.draw(7)) {
		case 0: set.change(c, w.empty() ? genChar(c) : w[(size_t) c.draw(w.size())]); ++changes; break;
		case 1: {
			WS x = genStr(c, 3);
			b->Append(mk(x));
			bt += x;
			++changes;
			break;
		}
		case 2:
			if (!bt.empty()) {
				size_t i = (size_t) c.draw(bt.size());
				bt[i] = genChar(c, 1);
				*b->Address((Int32) i) = bt[i];
				++changes;
			}
			break;
		case 3:
			tt = genStr(c, 5);
			t->text = mk(tt);
			++changes;
			break;
		case 4:
			number = (int64_t) c.draw(100);
			for (int i = 0; i < 5; ++i)
				if (order[i] == 4)
					*(Object**) a->Address(i) = new Int64Value(number);
			++changes;
			break;
		case 5: {
			int i = (int) c.draw(5), j = (int) c.draw(5);
			Object *x = *(Object**) a->Address(i), *y = *(Object**) a->Address(j);
			a->SetValue(x, j);
			a->SetValue(y, i);
			std::swap(order[i], order[j]);
			++changes;
		}
		}
	}
	if (changes > 1)
		c.nontrivial();
}
PBT_PROP(construct, 1500) { construct_body(c); }
PBT_PROP(characters, 1750) { characters_body(c); }
PBT_PROP(case_change, 1000) { case_change_body(c); }
PBT_PROP(concat_join, 1500) { concat_join_body(c); }
PBT_PROP(long_texts, 120) {
	LongTexts on(2);
	static void (*const f[])(Case&) = {substring_remove_insert_body, replace_body, pad_body, trim_body, construct_body, characters_body, case_change_body, concat_join_body};
	f[c.draw(8)](c);
}
PBT_PROP(huge_texts, 4) {
	LongTexts on(2, true);
	static void (*const f[])(Case&) = {substring_remove_insert_body, replace_body, pad_body, trim_body, construct_body, characters_body, case_change_body, concat_join_body};
	f[c.draw(8)](c);
}
