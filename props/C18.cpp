// C18: time span text is canonical and reads back.
#include "values.h"
PBT_MAIN("C18", "A case is a span printed through every text route and parsed back, or a text (assembled from the grammar with components at and over their limits, a mutated canonical text, or random over the grammar's alphabet) given to both parsing forms; "
	"the oracle is an independent formatter and an independent recogniser of the grammar. Non-trivial: the span is not zero, the text is accepted with a value other than zero, or it is a rejected text that contains a digit; distinct by generated choices.")
namespace {
WS canonical(int64_t t) {
	u128 u = t < 0 ? (u128) -(i128) t : (u128) t;
	uint64_t day = (uint64_t) (u / 864000000000ULL), r = (uint64_t) (u % 864000000000ULL);
	std::string s = t < 0 ? "-" : "";
	char b[64];
	if (day) {
		snprintf(b, sizeof b, "%llu.", (unsigned long long) day);
		s += b;
	}
	snprintf(b, sizeof b, "%02d:%02d:%02d", (int) (r / 36000000000ULL), (int) (r / 600000000ULL % 60), (int) (r / 10000000ULL % 60));
	s += b;
	if (r % 10000000ULL) {
		snprintf(b, sizeof b, ".%07d", (int) (r % 10000000ULL));
		s += b;
	}
	return wide(s);
}
bool white(wchar_t ch) { return ch == L' ' || (ch >= 9 && ch <= 13); }
enum Verdict { Reject, Accept, Either };
struct Num {
	u128 v = 0;
	int digits = 0, lead = 0;       // lead: leading zeros before the last digit
};
// Recogniser: splits into numbers and separators, then matches the separator pattern.
Verdict recognise(const WS& text, int64_t& out) {
	size_t i = 0, e = text.size();
	while (i < e && white(text[i]))
		++i;
	while (e > i && white(text[e - 1]))
		--e;
	bool neg = i < e && text[i] == L'-';
	i += neg;
	std::vector<Num> n;
	std::string seps;
	while (true) {
		Num x;
		while (i < e && text[i] >= L'0' && text[i] <= L'9') {
			if (x.v == 0 && x.digits)
				x.lead++;
			if (x.v < ((u128) 1 << 100))
				x.v = x.v * 10 + (u128) (text[i] - L'0');
			++x.digits;
			++i;
		}
		if (!x.digits)
			return Reject;
		n.push_back(x);
		if (i == e)
			break;
		if (text[i] != L':' && text[i] != L'.')
			return Reject;
		seps += (char) text[i++];
	}
	static const struct {
		const char* seps;
		const char* fields;
	} forms[] = {{"", "d"}, {":", "hm"}, {"::", "hms"}, {"::.", "hmsf"}, {".:", "dhm"}, {".::", "dhms"}, {".::.", "dhmsf"}, {":::", "dhms"}, {":::.", "dhmsf"}};
	for (auto& f : forms)
		if (seps == f.seps) {
			u128 total = 0;
			bool odd = false;
			for (size_t k = 0; k < n.size(); ++k)
				switch (f.fields[k]) {
				case 'd':
					if (n[k].v > 10675199)
						return Reject;
					if (n[k].digits > 8)
						odd = true;
					total += n[k].v * 864000000000ULL;
					break;
				case 'h':
					if (n[k].v > 23)
						return Reject;
					odd |= n[k].digits > 2;
					total += n[k].v * 36000000000ULL;
					break;
				case 'm':
				case 's':
					if (n[k].v > 59)
						return Reject;
					odd |= n[k].digits > 2;
					total += n[k].v * (f.fields[k] == 'm' ? 600000000ULL : 10000000ULL);
					break;
				default:
					if (n[k].digits > 7)
						return Reject;
					for (int d = n[k].digits; d < 7; ++d)
						n[k].v *= 10;
					total += n[k].v;
				}
			if (total > ((u128) 1 << 63) - (neg ? 0 : 1))
				return Reject;
			out = neg ? (int64_t) -(i128) total : (int64_t) total;
			return odd ? Either : Accept;
		}
	return Reject;
}
void checkParse(Case& c, const WS& text) {
	int64_t want = 0;
	Verdict v = recognise(text, want);
	c.label(v == Accept ? "accepted" : v == Reject ? "rejected" : "excess leading zeros");
	if (v == Accept ? want != 0 : text.find_first_of(L"0123456789") != WS::npos)
		c.nontrivial();
	String* s = mk(text);
	TimeSpan p, q;
	q.value = 0x1234567;
	bool ok = false;
	Ex e = tryCall([&] { p = TimeSpanValue::Parse(s); });
	Ex e2 = tryCall([&] { ok = TimeSpanValue::TryParse(s, q); });
	if (e2 != ExNone)
		c.fail("TryParse %s ended with %s", show(text).c_str(), exName(e2));
	if (ok != (e == ExNone))
		c.fail("TryParse %s is %d but Parse ended with %s", show(text).c_str(), ok, exName(e));
	if (v == Reject && ok)
		c.fail("%s was accepted as %lld ticks", show(text).c_str(), (long long) p.value);
	if (v == Accept && !ok)
		c.fail("%s was rejected with %s", show(text).c_str(), exName(e));
	if (!ok && e != ExFormat && e != ExOverflow)
		c.fail("Parse %s ended with %s", show(text).c_str(), exName(e));
	if (ok && (p.value != want || q.value != want))
		c.fail("%s gave %lld and %lld ticks, expected %lld", show(text).c_str(), (long long) p.value, (long long) q.value, (long long) want);
	if (!ok && q.value != 0 && q.value != 0x1234567)
		c.fail("TryParse %s failed but left %lld ticks", show(text).c_str(), (long long) q.value);
	if (ws(s) != text)
		c.fail("parsing changed the text");
	delete s;
}
WS digitsOf(Case& c, uint64_t v, int minDigits) {
	std::string s = std::to_string(v);
	while ((int) s.size() < minDigits)
		s = "0" + s;
	if (c.chance(1, 25))
		s = std::string(1 + (size_t) c.draw(9), '0') + s;
	return wide(s);
}
uint64_t comp(Case& c, uint64_t limit) { return c.chance(1, 8) ? limit + (uint64_t) c.draw(3) : c.chance(1, 5) ? (c.coin() ? limit - 1 : 0) : c.draw(limit); }
WS pad(Case& c) {
	WS r;
	for (size_t n = c.chance(1, 6) ? 1 + (size_t) c.draw(2) : 0; n; --n)
		r += c.pick({L' ', L'\t', L'\n', L'\r', L'\v', L'\f'});
	return r;
}
WS grammar(Case& c) {
	WS r = pad(c);
	if (c.chance(1, 3))
		r += L'-';
	size_t form = (size_t) c.draw(10);
	uint64_t days = c.chance(1, 5) ? 10675199 - 1 + c.draw(3) : c.chance(1, 8) ? c.draw(200000000) : c.draw(3000);
	auto D = [&] { r += digitsOf(c, days, 1); };
	auto H = [&] { r += digitsOf(c, comp(c, 24), (int) c.range(1, 2)); };
	auto M = [&] { r += digitsOf(c, comp(c, 60), (int) c.range(1, 2)); };
	auto F = [&] {
		int k = c.chance(1, 8) ? 8 : (int) c.range(1, 7);
		for (int j = 0; j < k; ++j)
			r += (wchar_t) (L'0' + c.draw(10));
	};
	bool end = days >= 10675198 && days <= 10675200 && c.coin();      // around the very last instant
	switch (form) {
	case 0:
		D();
		break;
	case 1:
		H(), r += L':', M();
		break;
	case 2:
		H(), r += L':', M(), r += L':', M();
		break;
	case 3:
		H(), r += L':', M(), r += L':', M(), r += L'.', F();
		break;
	case 4:
		D(), r += L'.', H(), r += L':', M();
		break;
	case 5:
		D(), r += L'.', H(), r += L':', M(), r += L':', M();
		break;
	case 6:
	case 7:
		D(), r += form == 6 ? L'.' : L':';
		if (end) {
			r += L"02:48:05.477580";
			r += (wchar_t) (L'0' + c.range(5, 9));
		} else
			H(), r += L':', M(), r += L':', M(), r += L'.', F();
		break;
	case 8:
		D(), r += L':', H(), r += L':', M(), r += L':', M();
		break;
	default:                                              // near misses of the grammar
		for (size_t k = 1 + (size_t) c.draw(5); k; --k) {
			if (k & 1)
				H();
			else
				M();
			r += c.pick({L':', L'.'});
		}
		if (c.coin())
			F();
	}
	return r + pad(c);
}
WS mutate(Case& c, WS w) {
	static const wchar_t alpha[] = {L'0', L'1', L'5', L'9', L':', L'.', L'-', L'+', L' ', L'd', L'/', L';', L',', 0x660, 0xFF11};
	for (size_t k = 1 + (size_t) c.draw(2); k; --k) {
		size_t at = (size_t) c.draw(w.size() + 1);
		switch (c.draw(3)) {
		case 0:
			w.insert(at, 1, c.pick(alpha));
			break;
		case 1:
			if (at < w.size())
				w.erase(at, 1);
			break;
		default:
			if (at < w.size())
				w[at] = c.pick(alpha);
		}
	}
	return w;
}
}
PBT_PROP(print_and_read_back, 6000) {
	int64_t t = genSpanTicks(c);
	c.note("%lld ticks", (long long) t);
	if (t)
		c.nontrivial();
	WS want = canonical(t);
	TimeSpanValue v((TimeSpan((Int64) t)));
	String* s = v.ToString();
	expectStr(c, "ToString", s, want);
	Char buf[64];
	Int32 n = v.FormatString(buf, 64);
	if (n != (Int32) want.size() || WS(buf) != want)
		c.fail("FormatString gave %s, %d", show(WS(buf)).c_str(), n);
	StringBuilder sb;
	sb.Append((Object*) &v);
	String* s2 = sb.ToString();
	expectStr(c, "StringBuilder", s2, want);
	String* s3 = String::Concat((Object*) &v);
	expectStr(c, "Concat", s3, want);
	TimeSpan back;
	Ex e = tryCall([&] { back = TimeSpanValue::Parse(s); });
	if (e != ExNone || back.value != t)
		c.fail("%s reads back as %lld, %s", show(want).c_str(), (long long) back.value, exName(e));
	delete s;
	delete s2;
	delete s3;
}
PBT_PROP(grammar_texts, 8000) {
	WS w = grammar(c);
	c.note("%s", show(w).c_str());
	checkParse(c, w);
}
PBT_PROP(mutated_texts, 6000) {
	WS w = mutate(c, c.coin() ? canonical(genSpanTicks(c)) : grammar(c));
	c.note("%s", show(w).c_str());
	checkParse(c, w);
}
PBT_PROP(random_texts, 3000) {
	static const wchar_t alpha[] = {L'0', L'1', L'2', L'5', L'9', L':', L'.', L'-', L' ', L':', L'.'};
	WS w;
	for (size_t n = c.size(14); n; --n)
		w += c.chance(1, 40) ? genChar(c) : c.pick(alpha);
	for (wchar_t& ch : w)
		if (ch > 126)
			ch = L'0' + ch % 10;                    // which wide characters count as white space is not specified here
	c.note("%s", show(w).c_str());
	checkParse(c, w);
}
PBT_PROP(every_short_text, 9) {
	// every text of up to four characters over the grammar's alphabet
	static const WS alpha = L"029:.- ";
	uint64_t block = c.enumerate(343);
	c.note("texts of up to four characters, block %llu", (unsigned long long) block);
	c.nontrivial();
	WS head;
	for (uint64_t k = block, i = 0; i < 3; ++i, k /= 7)
		head += alpha[(size_t) (k % 7)];
	for (size_t i = 0; i < 7; ++i)
		for (size_t j = 0; j < 7; ++j) {
			checkParse(c, head + alpha[i]);
			checkParse(c, head + alpha[i] + alpha[j]);
		}
	checkParse(c, head);
	checkParse(c, head.substr(0, 2));
	checkParse(c, head.substr(0, 1));
}
PBT_PROP(null_text, 1) {
	c.enumerate(1);
	c.nontrivial();
	TimeSpan r;
	Ex e = tryCall([&] { r = TimeSpanValue::Parse(nullptr); });
	if (e != ExArgumentNull)
		c.fail("Parse(null) ended with %s", exName(e));
	bool ok = true;
	e = tryCall([&] { ok = TimeSpanValue::TryParse(nullptr, r); });
	if (e == ExNone ? ok : e != ExArgumentNull)
		c.fail("TryParse(null) gave %d, %s", ok, exName(e));
	checkParse(c, L"");
}
