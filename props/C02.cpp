// C02: integer, Boolean and Char values print canonically and read back.
#include "ints.h"
#include "kept.h"
PBT_MAIN("C02", "A case is a value of one of the ten types (type limits, powers of two +-1, uniform; all 8/16-bit values enumerated), rendered through every text route and parsed back; "
	"or an arbitrary text given to the Boolean or Char parser. The oracle is an independent decimal printer. Non-trivial: a value with two or more digits, any Boolean/Char route case, "
	"or a parser text that shares a prefix or length with an accepted text; distinct by generated choices.")

namespace {
// All text routes of one boxed object must give the same text.
void routes(Case& c, const char* name, Object* o, const WS& want) {
	expectStr(c, (std::string(name) + " ToString").c_str(), o->ToString(), want);
	WS pre = genStr(c, 6, 1), post = genStr(c, 4, 1);
	StringBuilder sb(mk(pre));
	sb.Append(o);
	expectStr(c, (std::string(name) + " appended as object").c_str(), sb.ToString(), pre + want);
	sb.Append(*(ValueType*) o);
	expectStr(c, (std::string(name) + " appended as value").c_str(), sb.ToString(), pre + want + want);
	size_t at = (size_t) c.draw(pre.size() + 1);
	StringBuilder sb2(mk(pre));
	sb2.Insert((Int32) at, o);
	WS m = pre;
	m.insert(at, want);
	expectStr(c, (std::string(name) + " inserted as object").c_str(), sb2.ToString(), m);
	expectStr(c, (std::string(name) + " concatenated").c_str(), String::Concat(mk(pre), o, mk(post)), pre + want + post);
	std::vector<Object*> v{o, mk(post), o};
	expectStr(c, (std::string(name) + " concatenated from an array").c_str(), String::Concat(mkObjs(v)), want + post + want);
	expectStr(c, (std::string(name) + " joined").c_str(), String::Join(mk(L", "), mkObjs(v)), want + L", " + post + L", " + want);
	expectStr(c, (std::string(name) + " joined by a character").c_str(), String::Join(L'|', mkObjs(v)), want + L"|" + post + L"|" + want);
}
void integer(Case& c, const IntType& t, i128 v, bool all) {
	WS want = wide(dec(v));
	Object* o = t.box(v);
	if (all)
		routes(c, t.name, o, want);
	else
		expectStr(c, t.name, o->ToString(), want);
	StringBuilder sb;
	sb.Append(L'#');
	t.sbAppend(&sb, v);
	sb.Append(L'#');
	expectStr(c, (std::string(t.name) + " appended").c_str(), sb.ToString(), L"#" + want + L"#");
	StringBuilder sb2(mk(L"ab"));
	t.sbInsert(&sb2, 1, v);
	expectStr(c, (std::string(t.name) + " inserted").c_str(), sb2.ToString(), L"a" + want + L"b");
	i128 back = 0;
	Ex e = t.parse(o->ToString(), back);
	if (e != ExNone || back != v)
		c.fail("%s: text %s of value %s parses to %s (%s)", t.name, show(want).c_str(), dec(v).c_str(), dec(back).c_str(), exName(e));
	bool ok = false;
	e = t.tryParse(mk(want), ok, back);
	if (e != ExNone || !ok || back != v)
		c.fail("%s: text %s is not read back by the trying form", t.name, show(want).c_str());
}
}
PBT_PROP(integers, 6500) {
	const IntType& t = c.pick(intTypes());
	i128 v = genInt(c, t);
	c.note("%s %s", t.name, dec(v).c_str());
	if (v > 9 || v < -9)
		c.nontrivial();
	c.label(v < 0 ? "negative" : v > t.hi / 2 ? "upper half" : "lower half");
	integer(c, t, v, true);
}
PBT_PROP(small_types_exhaustive, 4) {
	int64_t off = (int64_t) c.enumerate(256);
	c.nontrivial();
	c.note("every 256th value of the 8- and 16-bit types from offset %d", (int) off);
	for (int k = 0; k < 4; ++k) {
		const IntType& t = intTypes()[k];
		for (i128 v = t.lo + off; v <= t.hi; v += 256)
			integer(c, t, v, false);
	}
}
PBT_PROP(limits, 1) {
	const IntType& t = intTypes()[(size_t) c.enumerate(8)];
	c.note("%s limits", t.name);
	c.nontrivial();
	if (t.maxv() != t.hi || t.minv() != t.lo)
		c.fail("%s limits are %s..%s, expected %s..%s", t.name, dec(t.minv()).c_str(), dec(t.maxv()).c_str(), dec(t.lo).c_str(), dec(t.hi).c_str());
	integer(c, t, t.lo, true);
	integer(c, t, t.hi, true);
}
PBT_PROP(booleans, 300) {
	bool b = c.coin();
	c.note("Boolean %d", b);
	c.nontrivial();
	WS want = b ? L"True" : L"False";
	BooleanValue* o = new BooleanValue(b);
	routes(c, "Boolean", o, want);
	StringBuilder sb(mk(L"xy"));
	sb.Append((Boolean) b);
	sb.Insert(1, (Boolean) b);
	expectStr(c, "Boolean builder", sb.ToString(), L"x" + want + L"y" + want);
	if (BooleanValue::Parse(o->ToString()) != b)
		c.fail("Boolean text does not read back");
	WS mixed = want;
	for (auto& ch : mixed)
		if (c.coin())
			ch = iswupper(ch) ? towlower(ch) : towupper(ch);
	if (BooleanValue::Parse(mk(mixed)) != b)
		c.fail("Boolean::Parse(%s) is not %d", show(mixed).c_str(), b);
	expectStr(c, "TrueString", BooleanValue::TrueString, L"True");
	expectStr(c, "FalseString", BooleanValue::FalseString, L"False");
}
PBT_PROP(boolean_texts, 2500) {
	// prefixes, extensions and mutations of the two words; white space around them may or may not be accepted
	WS s = c.coin() ? L"True" : L"False";
	switch (c.weighted({4, 3, 4, 3, 2, 2})) {
	case 5: {                                                  // a NUL at some place, with or without text after it
		WS rest = c.coin() ? genStr(c, 3) : WS();
		s = c.coin() ? s + WS(1, 0) + rest : WS(s).insert((size_t) c.draw(s.size()), WS(1, 0) + rest);
		break;
	}
	case 0:
		s = s.substr(0, (size_t) c.draw(s.size()));
		break;
	case 1:
		s += genStr(c, 4, 1);
		break;
	case 2:
		s[(size_t) c.draw(s.size())] = genChar(c);
		break;
	case 3:
		s = genStr(c, 8);
		break;
	default:
		s = genStr(c, 2, 1) + s;
	}
	for (auto& ch : s)
		if (c.chance(1, 6))
			ch = (ch >= L'a' && ch <= L'z') ? ch - 32 : (ch >= L'A' && ch <= L'Z') ? ch + 32 : ch;
	c.note("Boolean parse %s", show(s).c_str());
	WS low;
	for (auto ch : s)
		low += (ch >= L'A' && ch <= L'Z') ? ch + 32 : ch;
	if (low.find(L'\0') != WS::npos)
		c.label("with a NUL");
	if (!low.empty() && (low[0] == L't' || low[0] == L'f'))
		c.nontrivial();
	int want = low == L"true" ? 1 : low == L"false" ? 0 : -1;
	// .NET ignores white space around the word; this library is not documented to
	WS trimmed = low;
	while (!trimmed.empty() && (iswspace(trimmed.back()) || trimmed.back() > 0x7f || trimmed.back() == 0))
		trimmed.pop_back();
	while (!trimmed.empty() && (iswspace(trimmed[0]) || trimmed[0] > 0x7f || trimmed[0] == 0))
		trimmed.erase(0, 1);
	bool spaced = trimmed != low && (trimmed == L"true" || trimmed == L"false");
	Boolean got = false;
	Ex e = tryCall([&] { got = BooleanValue::Parse(mk(s)); });
	if (want >= 0 && (e != ExNone || got != (want == 1)))
		c.fail("Boolean::Parse(%s) gave %s/%d", show(s).c_str(), exName(e), got);
	if (want < 0 && !spaced && e != ExFormat)
		c.fail("Boolean::Parse(%s) gave %s/%d, expected a format error", show(s).c_str(), exName(e), got);
	Ex n = tryCall([&] { BooleanValue::Parse(nullptr); });
	if (n != ExArgumentNull && n != ExArgument)
		c.fail("Boolean::Parse(null) gave %s", exName(n));
}
PBT_PROP(chars, 1500) {
	Char ch = c.chance(1, 2) ? genChar(c) : (Char) (1 + c.draw(0xFFFF));
	c.note("Char %#x", (unsigned) ch);
	c.nontrivial();
	WS want(1, ch);
	CharValue* o = new CharValue(ch);
	routes(c, "Char", o, want);
	expectStr(c, "Char::ToString", o->ToString(), want);
	expectStr(c, "static Char::ToString", CharValue::ToString(ch), want);
	StringBuilder sb(mk(L"xy"));
	sb.Append(ch);
	sb.Insert(1, ch);
	expectStr(c, "Char builder", sb.ToString(), L"x" + want + L"y" + want);
	if (CharValue::Parse(mk(want)) != ch)
		c.fail("Char text does not read back");
	WS s = c.chance(1, 3) ? want : genStr(c, 3);
	Char r = L'?';
	bool ok = CharValue::TryParse(mk(s), r);
	if (ok != (s.size() == 1) || (ok && r != s[0]))
		c.fail("Char::TryParse(%s) returned %d", show(s).c_str(), ok);
	Char pr = 0;
	Ex e = tryCall([&] { pr = CharValue::Parse(mk(s)); });
	if (s.size() == 1 ? (e != ExNone || pr != s[0]) : e != ExFormat)
		c.fail("Char::Parse(%s) gave %s", show(s).c_str(), exName(e));
	e = tryCall([&] { CharValue::Parse(nullptr); });
	if (e != ExArgumentNull)
		c.fail("Char::Parse(null) gave %s", exName(e));
	if (CharValue::TryParse(nullptr, r))
		c.fail("Char::TryParse(null) returned true");
	if (CharValue::MaxValue != 0xFFFF || CharValue::MinValue != 0)
		c.fail("Char limits are wrong");
}
PBT_PROP(texts_kept, 350) {
	// Texts made by every route are kept while others are made.
	Kept k;
	StringBuilder sb;
	WS all;
	size_t n = 2 + c.steps(12, 150);
	for (size_t i = 0; i < n; ++i) {
		Object* o;
		WS w;
		switch (c.weighted({6, 1, 2})) {
		case 0: {
			const IntType& t = c.pick(intTypes());
			i128 v = genInt(c, t);
			o = t.box(v);
			w = wide(dec(v));
			break;
		}
		case 1: {
			bool b = c.coin();
			o = new BooleanValue(b);
			w = b ? L"True" : L"False";
			break;
		}
		default: {
			Char ch = genChar(c);
			o = new CharValue(ch);
			w = WS(1, ch);
			if (c.coin())
				k.keep(c, CharValue::ToString(ch), w, "static Char::ToString");
		}
		}
		switch (c.weighted({5, 1, 1, 2, 1})) {
		case 0:
			k.keep(c, o->ToString(), w, "ToString");
			break;
		case 1:
			k.keep(c, String::Concat(o), w, "Concat");
			break;
		case 2:
			k.keep(c, String::Join(L',', mkObjs({o, o})), w + L"," + w, "Join");
			break;
		case 3:
			sb.Append(o);
			all += w;
			k.keep(c, sb.ToString(), all, "builder text");
			break;
		default:
			sb.Insert(0, o);
			all = w + all;
			k.keep(c, sb.ToString(), all, "builder text");
		}
		c.note("%s", show(w).c_str());
	}
	c.nontrivial();
	k.verify(c);
}
