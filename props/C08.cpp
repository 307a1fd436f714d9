// C08: strings are immutable and own their text.
#include "values.h"
PBT_MAIN("C08", "A case is a history of up to thirty steps over a pool of strings, builders and character arrays: strings are created from texts, arrays, builders and other strings, every deriving operation is applied, builders and arrays are overwritten, resized and destroyed, "
	"and strings are destroyed; after every step every living string must have its original characters, length and terminator (AddressSanitizer watches freed storage). Non-trivial: a source or a sibling of a living string was changed or destroyed; distinct by generated choices.")
namespace {
struct Str {
	String* s;
	WS w;
	bool deletable;
};
struct Pool {
	std::vector<Str> strings;
	std::vector<StringBuilder*> builders;
	std::vector<Array*> arrays;
	std::vector<WS> arrayTexts;           // what each array held when it was last written here
	std::vector<wchar_t*> texts;          // caller-owned text the strings were copied from
	std::string what;
	bool disturbed = false;
	void add(Case& c, String* s, const WS& w) {
		expectStr(c, what.c_str(), s, w);
		for (auto& x : strings)
			if (x.s == s)
				return;                    // the same object again
		if (s != String::Empty)
			strings.push_back({s, w, s->IsAllocated() != 0});
	}
	void addArray(Array* a, const WS& w) {
		arrays.push_back(a);
		arrayTexts.push_back(w);
	}
	void check(Case& c) {
		for (auto& x : strings) {
			if (x.s->get_Length() != (Int32) x.w.size() || ws(x.s) != x.w || x.s->get_Buffer()[x.w.size()] != 0)
				c.fail("after %s a string created as %s reads %s (length %d)", what.c_str(), show(x.w).c_str(), show(ws(x.s)).c_str(), x.s->get_Length());
			if (!x.w.empty() && x.s->get_Chars((Int32) x.w.size() - 1) != x.w.back())
				c.fail("after %s a string created as %s has another last character", what.c_str(), show(x.w).c_str());
		}
		for (size_t i = 0; i < arrays.size(); ++i)
			if (arrays[i]->get_Length() != (Int32) arrayTexts[i].size() || (!arrayTexts[i].empty() && wmemcmp((Char*) arrays[i]->Address(0), arrayTexts[i].data(), arrayTexts[i].size())))
				c.fail("after %s an array of characters holding %s changed", what.c_str(), show(arrayTexts[i]).c_str());
		if (String::Empty->get_Length() != 0 || String::Empty->get_Buffer()[0] != 0)
			c.fail("after %s the empty string is %s", what.c_str(), show(ws(String::Empty)).c_str());
	}
};
WS text(StringBuilder* sb) { return WS(sb->get_Buffer(), (size_t) sb->get_Length()); }
WS text(Array* a) { return a->get_Length() ? WS((Char*) a->Address(0), (size_t) a->get_Length()) : WS(); }
int most() { return longHuge() ? 200000 : longOdds() ? 40000 : 400; }   // texts are not made longer than this
// Texts of values, up to a hundred of them one after the other.
void valueTexts(Case& c, Pool& p) {
	size_t n = 1 + (c.chance(1, 10) ? (size_t) c.draw(100) : (size_t) c.draw(3));
	for (size_t i = 0; i < n; ++i) {
		int v = (int) c.near0(-99999, 99999);
		switch (c.draw(8)) {
		case 0: p.what = "Int32 text"; p.add(c, (new Int32Value(v))->ToString(), std::to_wstring(v)); break;
		case 1: p.what = "Int64 text"; p.add(c, (new Int64Value(v))->ToString(), std::to_wstring(v)); break;
		case 2: p.what = "Boolean text"; p.add(c, (new BooleanValue(v & 1))->ToString(), v & 1 ? L"True" : L"False"); break;
		case 3: p.what = "Char text"; p.add(c, CharValue::ToString((Char) (L'a' + (v & 15))), WS(1, (wchar_t) (L'a' + (v & 15)))); break;
		case 4: p.what = "Double text"; p.add(c, (new DoubleValue(v))->ToString(), std::to_wstring(v)); break;
		case 5: p.what = "TimeSpan text"; p.add(c, (new TimeSpanValue(TimeSpan((v & 7) * 36000000000LL)))->ToString(), L"0" + std::to_wstring(v & 7) + L":00:00"); break;
		case 6: p.what = "DateTime text"; p.add(c, (new DateTimeValue(DateTime(2000 + (v & 7), 1, 2, 3, 4, 5)))->ToString(), L"1/2/200" + std::to_wstring(v & 7) + L" 3:04:05 AM"); break;
		default: {
			Array* a = BitConverter::GetBytes((Int32) v);
			static const wchar_t* d = L"0123456789ABCDEF";
			WS w;
			for (int k = 0; k < 4; ++k)
				w += (k ? L"-" : L"") + WS(1, d[(uint32_t) v >> (8 * k + 4) & 15]) + WS(1, d[(uint32_t) v >> (8 * k) & 15]);
			p.what = "hexadecimal text";
			p.add(c, BitConverter::ToString(a), w);
			delete a;
		}
		}
	}
	p.disturbed = true;
}
void step(Case& c, Pool& p) {
	auto& S = p.strings;
	auto someStr = [&]() -> Str& { return S[(size_t) c.draw(S.size())]; };
	switch (S.empty() ? 0 : p.builders.empty() ? c.weighted({2, 3, 1}) : p.arrays.empty() ? c.weighted({2, 3, 2, 3}) : c.weighted({2, 3, 2, 3, 3, 8, 2})) {
	case 0: {                                                     // from text
		WS w = c.chance(1, 8) ? WS((size_t) c.range(126, 132), genChar(c, 1)) : genStr(c, 9, 1);
		size_t i = (size_t) c.draw(w.size() + 1), k = (size_t) c.draw(w.size() - i + 1);
		wchar_t* t = new wchar_t[w.size() + 1];
		wmemcpy(t, w.c_str(), w.size() + 1);
		p.what = "new String from text " + show(w);
		p.texts.push_back(t);
		if (w.find(L'\0') == WS::npos && c.chance(1, 4))
			p.add(c, new String((Char) L'r', (Int32) k), WS(k, L'r'));
		else
			p.add(c, new String(t, (Int32) i, (Int32) k), w.substr(i, k));
		break;
	}
	case 1: {                                                     // a new builder
		Str& x = someStr();
		p.what = "new StringBuilder from " + show(x.w);
		p.builders.push_back(new StringBuilder(x.s, (Int32) c.draw(200)));
		break;
	}
	case 2: {                                                     // a new array
		Str& x = someStr();
		p.what = "ToCharArray of " + show(x.w);
		p.addArray(x.s->ToCharArray(), x.w);
		break;
	}
	case 3: {                                                     // take text out of a builder, or change it
		size_t bi = (size_t) c.draw(p.builders.size());
		StringBuilder* sb = p.builders[bi];
		WS t = text(sb);
		int n = (int) t.size();
		switch (c.draw(9)) {
		case 0:
			p.what = "ToString of a builder";
			p.add(c, sb->ToString(), t);
			break;
		case 1: {
			int i = (int) c.draw((uint64_t) n + 1), k = (int) c.draw((uint64_t) (n - i) + 1);
			p.what = "ToString(start,length) of a builder";
			p.add(c, sb->ToString(i, k), t.substr((size_t) i, (size_t) k));
			break;
		}
		case 2:
			p.what = "Append to a builder";
			if (n < most())
				sb->Append(someStr().s);
			p.disturbed = true;
			break;
		case 3:
			p.what = "Insert into a builder";
			if (n < most())
				sb->Insert((int) c.draw((uint64_t) n + 1), someStr().s, (Int32) c.draw(3));
			p.disturbed = true;
			break;
		case 4:
			p.what = "overwriting a builder's characters";
			for (int i = 0; i < n; ++i)
				sb->set_Chars(i, L'!');
			p.disturbed = true;
			break;
		case 5:
			p.what = "Replace in a builder";
			if (n)
				sb->Replace(t[0], (Char) L'?');
			p.disturbed = true;
			break;
		case 6:
			p.what = "set_Length of a builder";
			sb->set_Length((int) c.draw((uint64_t) n + 3));
			p.disturbed = true;
			break;
		case 7:
			p.what = "Remove from a builder";
			if (n)
				sb->Remove(0, 1 + (int) c.draw((uint64_t) n));
			p.disturbed = true;
			break;
		default:
			p.what = "destroying a builder";
			delete sb;
			p.builders.erase(p.builders.begin() + (long) bi);
			p.disturbed = true;
		}
		break;
	}
	case 4: {                                                     // array to string, array changes
		size_t ai = (size_t) c.draw(p.arrays.size());
		Array* a = p.arrays[ai];
		WS t = text(a);
		switch (c.draw(5)) {
		case 0:
			p.what = "new String from an array";
			p.add(c, new String(a), t);
			break;
		case 1: {
			int n = (int) t.size(), i = (int) c.draw((uint64_t) n + 1), k = (int) c.draw((uint64_t) (n - i) + 1);
			p.what = "new String from an array range";
			p.add(c, new String(a, i, k), t.substr((size_t) i, (size_t) k));
			break;
		}
		case 2: {
			Str& x = someStr();
			int k = (int) c.draw(std::min(x.w.size(), t.size()) + 1);
			p.what = "CopyTo an array";
			x.s->CopyTo((int) x.w.size() - k, a, 0, k);
			p.arrayTexts[ai] = x.w.substr(x.w.size() - (size_t) k) + t.substr((size_t) k);
			p.disturbed = true;
			break;
		}
		case 3:
			p.what = "overwriting an array";
			if (c.coin())
				Array::Clear(a, 0, a->get_Length());
			else
				for (int i = 0; i < a->get_Length(); ++i)
					*(Char*) a->Address(i) = L'@';
			p.arrayTexts[ai] = WS((Char*) (t.empty() ? L"" : a->Address(0)), t.size());
			p.disturbed = true;
			break;
		default:
			p.what = "destroying an array";
			delete a;
			p.arrays.erase(p.arrays.begin() + (long) ai);
			p.arrayTexts.erase(p.arrayTexts.begin() + (long) ai);
			p.disturbed = true;
		}
		break;
	}
	case 5: {                                                     // derive from strings
		Str x = someStr(), y = someStr();
		int n = (int) x.w.size(), i = (int) c.draw((uint64_t) n + 1), k = (int) c.draw((uint64_t) (n - i) + 1);
		WS xw = x.w;
		if (n > most()) {
			p.what = "Substring";
			p.add(c, x.s->Substring(i, std::min(k, 20)), xw.substr((size_t) i, (size_t) std::min(k, 20)));
			break;
		}
		switch (c.draw(18)) {
		case 16: valueTexts(c, p); break;
		case 0: p.what = "Substring"; p.add(c, x.s->Substring(i, k), xw.substr((size_t) i, (size_t) k)); break;
		case 1: p.what = "Remove"; p.add(c, x.s->Remove(i, k), xw.substr(0, (size_t) i) + xw.substr((size_t) (i + k))); break;
		case 2: p.what = "Insert"; p.add(c, x.s->Insert(i, y.s), xw.substr(0, (size_t) i) + y.w + xw.substr((size_t) i)); break;
		case 3: p.what = "Copy"; p.add(c, String::Copy(x.s), xw); break;
		case 4: p.what = "Concat"; p.add(c, String::Concat(x.s, y.s, x.s), xw + y.w + xw); break;
		case 5: p.what = "Concat of one"; p.add(c, String::Concat(x.s), xw); break;
		case 6: {
			WS r = xw;
			for (wchar_t& ch : r)
				ch = ch == L'a' ? L'b' : ch;
			p.what = "Replace char";
			p.add(c, x.s->Replace(L'a', L'b'), r);
			break;
		}
		case 7: p.what = "PadLeft"; p.add(c, x.s->PadLeft(n + 2, L'p'), L"pp" + xw); break;
		case 8: p.what = "PadRight to the same width"; p.add(c, x.s->PadRight(n), xw); break;
		case 9: {
			WS r = xw;
			for (wchar_t& ch : r)
				ch = ch < 128 ? (ch >= L'a' && ch <= L'z' ? ch - 32 : ch) : CharValue::ToUpper(ch);
			p.what = "ToUpper";
			p.add(c, x.s->ToUpper(), r);
			break;
		}
		case 10: {
			WS r = xw;
			for (wchar_t& ch : r)
				ch = ch < 128 ? (ch >= L'A' && ch <= L'Z' ? ch + 32 : ch) : CharValue::ToLower(ch);
			p.what = "ToLower";
			p.add(c, x.s->ToLower(), r);
			break;
		}
		case 11: {
			WS r = xw, set = n ? xw.substr(0, 1) : L"x";
			r.erase(0, std::min(r.size(), r.find_first_not_of(set[0])));
			while (!r.empty() && r.back() == set[0])
				r.pop_back();
			p.what = "Trim";
			p.add(c, x.s->Trim(mkChars(set)), r);
			break;
		}
		case 12: p.what = "ToString"; p.add(c, x.s->ToString(), xw); break;
		case 13: {
			Array* a = mkObjs({x.s, y.s, x.s}, StringType);
			p.what = "Join";
			p.add(c, String::Join(y.s, a), xw + y.w + y.w + y.w + xw);
			delete a;
			break;
		}
		case 14: {
			p.what = "Replace text with nothing";
			if (y.w.size() == 1) {
				WS r;
				for (wchar_t ch : xw)
					if (ch != y.w[0])
						r += ch;
				if ((double) (xw.size() - r.size()) * (double) xw.size() > 3e8)
					break;                                 // every removal may move the rest of the text
				p.add(c, x.s->Replace(y.s, String::Empty), r);
			}
			break;
		}
		case 15: p.what = "TrimEnd of nothing"; p.add(c, x.s->TrimEnd(mkChars(L"\x7")), [&] { WS r = xw; while (!r.empty() && r.back() == 7) r.pop_back(); return r; }()); break;
		default:
			// operations that must not write: comparisons, searches, failing calls
			p.what = "queries and rejected calls";
			String::Compare(x.s, y.s, true);
			x.s->Contains(y.s);
			x.s->LastIndexOf(y.s);
			x.s->Equals((Object*) y.s);
			tryCall([&] { x.s->Substring(n + 1); });
			tryCall([&] { x.s->Remove(n, 1); });
			tryCall([&] { x.s->Insert(n + 1, y.s); });
			tryCall([&] { Int32Value::Parse(x.s); });
			std::vector<Char> buf((size_t) n + 200);
			tryCall([&] { x.s->FormatString(buf.data(), n + 200); });
			tryCall([&] { x.s->FormatString(buf.data(), n); });
		}
		break;
	}
	default: {                                                    // destroy a string
		size_t k = (size_t) c.draw(S.size());
		p.what = "destroying the string " + show(S[k].w);
		if (S.size() > 1 && S[k].deletable) {
			delete S[k].s;
			S.erase(S.begin() + (long) k);
			p.disturbed = true;
		}
		if (!p.texts.empty() && c.coin()) {
			size_t j = (size_t) c.draw(p.texts.size());
			wmemset(p.texts[j], L'X', wcslen(p.texts[j]));
			p.what += " and overwriting a source text";
			p.disturbed = true;
		}
	}
	}
	c.note("%s", p.what.c_str());
	p.check(c);
}
}
PBT_PROP(histories, 4000) {
	Pool p;
	p.what = "literal";
	static const wchar_t lit[] = L"literal A text";
	p.add(c, new String(lit), lit);
	size_t steps = 2 + c.steps(29, 150);
	for (size_t i = 0; i < steps; ++i)
		step(c, p);
	if (p.disturbed && p.strings.size() > 1)
		c.nontrivial();
	if (wcscmp(lit, L"literal A text"))
		c.fail("the literal text changed");
}
namespace {
void longTexts(Case& c) {
	Pool p;
	p.what = "start";
	WS w = genStr(c, 5, 1) + L"ab";
	p.add(c, mk(w), w);
	p.builders.push_back(new StringBuilder(p.strings[0].s));
	p.addArray(p.strings[0].s->ToCharArray(), w);
	size_t steps = 3 + (size_t) c.draw(12);
	for (size_t i = 0; i < steps; ++i)
		step(c, p);
	if (p.disturbed)
		c.nontrivial();
}
}
PBT_PROP(long_texts, 60) {
	LongTexts guard(4);
	longTexts(c);
}
PBT_PROP(huge_texts, 3) {
	LongTexts guard(3, true);
	longTexts(c);
}
PBT_PROP(short_histories, 7000) {
	Pool p;
	p.what = "start";
	WS w = genStr(c, 5, 1) + L"ab";
	p.add(c, mk(w), w);
	p.builders.push_back(new StringBuilder(p.strings[0].s));
	p.addArray(p.strings[0].s->ToCharArray(), w);
	size_t steps = 1 + c.size(7);
	for (size_t i = 0; i < steps; ++i)
		step(c, p);
	if (p.disturbed)
		c.nontrivial();
}
namespace {
void sourceDestroyed(Case& c) {
	// A string survives each kind of source it was made from, wholly or in part.
	WS w = genStr(c, 12) + L"ab";
	String* s = mk(w);
	size_t n = w.size(), i = (size_t) c.draw(n), k = (size_t) c.draw(n - i + 1), how = (size_t) c.draw(7);
	c.note("%s [%d,+%d] by route %d", show(w).c_str(), (int) i, (int) k, (int) how);
	c.nontrivial();
	String* r = nullptr;
	WS want = w.substr(i, k);
	switch (how) {
	case 0: {
		StringBuilder* sb = new StringBuilder(s);
		r = sb->ToString((Int32) i, (Int32) k);
		delete sb;
		break;
	}
	case 1: {
		Array* a = s->ToCharArray();
		r = new String(a, (Int32) i, (Int32) k);
		delete a;
		break;
	}
	case 2:
		r = s->Substring((Int32) i, (Int32) k);
		break;
	case 3:
		r = String::Copy(s);
		want = w;
		break;
	case 4:
		r = String::Concat(s);
		want = w;
		break;
	case 5: {
		Array* a = mkObjs({s}, StringType);
		r = String::Join(L'-', a);
		want = w;
		delete a;
		break;
	}
	default:
		r = s->Remove((Int32) i, (Int32) k);
		want = w.substr(0, i) + w.substr(i + k);
	}
	if (r != s)
		delete s;
	String* fill = new String(L'#', (Int32) n);              // likely to reuse freed storage
	expectStr(c, "the derived string after its source is gone", r, want);
	if (r != String::Empty)
		delete r;
	delete fill;
}
}
PBT_PROP(every_source_destroyed, 2500) { sourceDestroyed(c); }
PBT_PROP(every_long_source_destroyed, 60) {
	LongTexts guard(1);
	sourceDestroyed(c);
}
