// C10: builder capacity rules hold and failed edits change nothing.
#include "sbmodel.h"
PBT_MAIN("C10", "A case is a history of up to forty edits on a builder with a small or boundary maximum capacity (1 to 300 and unlimited), half of the arguments out of range or just about filling the room left; after every step length <= capacity <= maximum is "
	"checked, a requested capacity must be available, and a rejected edit must leave content, length and limits as they were. Non-trivial: at least one edit is rejected or the capacity grows; distinct by generated choices.")
namespace {
void history(Case& c, size_t steps, unsigned wild, bool limited, bool big = false) {
	SbModel a;
	if (big)
		a.grow();
	a.create(c, limited);
	for (size_t i = 0; i < steps; ++i) {
		a.step(c, wild);
		a.check(c, true);
	}
	a.checkText(c);
	if (a.rejected || a.grown)
		c.nontrivial();
	if (a.rejected)
		c.label("rejected edit");
	if (a.grown)
		c.label("grew");
	delete a.sb;
}
}
PBT_PROP(limited_histories, 3500) { history(c, 1 + c.size(10), 6, true); }
PBT_PROP(long_histories, 1000) { history(c, 8 + c.steps(33, 200), 4, true); }
PBT_PROP(unlimited_histories, 1200) { history(c, 1 + c.steps(12, 200), 8, false); }
PBT_PROP(large_histories, 40) {
	LongTexts guard(12);
	history(c, 2 + (size_t) c.draw(12), 4, c.coin(), true);
}
PBT_PROP(huge_histories, 4) {
	LongTexts guard(6, true);
	history(c, 2 + (size_t) c.draw(12), 4, c.coin(), true);
}
// Requests whose total size only just fits, or does not fit, in 32 bits: refused without effect.
PBT_PROP(enormous_growth, 4) {
	SbModel a;
	static const int texts[] = {4096, 8192, 20000, 32768, 46341, 65536, 65537, 100000, 131072, 300000};
	int places = c.pick(texts) + (int) c.near0(0, 3), other = (int) c.draw(3);
	a.sb = new StringBuilder();
	a.say(c, "start");
	a.edit(c, SbModel::Accept, WS((size_t) places, L'a') + WS((size_t) other, L'b'), [&] {
		a.sb->Append(L'a', places);
		a.sb->Append(L'b', other);
	});
	// the growth aimed at: just above 2^31, 2^32 or 2^33
	int64_t aim = (int64_t) 1 << c.pick({31, 32, 32, 32, 33}), size = (aim + places - 1) / places + (int64_t) c.draw(3);
	if (size > 4000000)
		return;
	c.nontrivial();
	String* big = new String((Char) L'x', (Int32) (size + 1));
	switch (c.draw(5)) {
	case 0:
		a.say(c, SbModel::str("Replace of %d places by %d characters", places, (int) size + 1));
		a.edit(c, SbModel::Reject, a.m, [&] { a.sb->Replace(mk(L"a"), big); });
		break;
	case 1: {
		int from = (int) c.draw(3);
		a.say(c, SbModel::str("Replace of %d places from %d by %d characters", places - from, from, (int) size + 5));
		String* bigger = new String((Char) L'x', (Int32) (aim / (places - from) + 6));
		a.edit(c, SbModel::Reject, a.m, [&] { a.sb->Replace(mk(L"a"), bigger, from, places - from); });
		delete bigger;
		break;
	}
	case 2:
		a.say(c, SbModel::str("Insert of %d characters %d times", (int) size + 1, places));
		a.edit(c, SbModel::Reject, a.m, [&] { a.sb->Insert((Int32) c.draw((uint64_t) a.n() + 1), big, places); });
		break;
	case 3: {
		int k = INT32_MAX - (int) c.draw((uint64_t) a.n());
		a.say(c, SbModel::str("Append of a character %d times", k));
		a.edit(c, SbModel::Reject, a.m, [&] { a.sb->Append(L'c', k); });
		break;
	}
	default:
		// the same through a string, which has no way to be too long
		a.say(c, SbModel::str("String Replace of %d places by %d characters", places, (int) size + 1));
		String* s = mk(a.m);
		String* r = nullptr;
		if (tryCall([&] { r = s->Replace(mk(L"a"), big); }) == ExNone)
			c.fail("%s gave a string of length %d", a.what.c_str(), r->get_Length());
		expectStr(c, "the string afterwards", s, a.m);
	}
	delete big;
	a.check(c, true);
	a.checkText(c);
	delete a.sb;
}
PBT_PROP(constructors, 2500) {
	WS w = c.chance(1, 5) ? WS((size_t) c.range(120, 140), L'k') : genStr(c, 10);
	auto any = [&] { return c.chance(1, 4) ? (int) c.edge(INT32_MIN, -1) : c.coin() ? (int) c.draw(6) : (int) c.draw(300); };
	int cap = any(), mx = c.chance(1, 6) ? (int) c.edge(INT32_MIN, INT32_MAX) : any(), i = c.chance(1, 4) ? any() : (int) c.draw(w.size() + 1), k = c.chance(1, 4) ? any() : (int) c.draw(w.size() + 1);
	c.note("capacity %d, maximum %d, %s [%d,+%d]", cap, mx, show(w).c_str(), i, k);
	String* s = c.chance(1, 10) ? (w.clear(), nullptr) : mk(w);
	struct {
		const char* what;
		bool ok;
		int cap, max;
		WS text;
		std::function<StringBuilder*()> f;
	} t[] = {
		{"(capacity)", cap >= 0, cap, INT32_MAX, L"", [&] { return new StringBuilder((Int32) cap); }},
		{"(capacity, maximum)", cap >= 0 && mx >= 1 && cap <= mx, cap, mx, L"", [&] { return new StringBuilder(cap, mx); }},
		{"(text, capacity)", cap >= 0, cap, INT32_MAX, w, [&] { return new StringBuilder(s, cap); }},
		{"(text)", true, 0, INT32_MAX, w, [&] { return new StringBuilder(s); }},
		{"(text, start, length, capacity)", cap >= 0 && i >= 0 && k >= 0 && i <= (int) w.size() && k <= (int) w.size() - i, cap, INT32_MAX, i >= 0 && k >= 0 && i <= (int) w.size() ? w.substr((size_t) i, (size_t) k) : L"",
			[&] { return new StringBuilder(s, i, k, cap); }},
	};
	for (auto& x : t) {
		StringBuilder* sb = nullptr;
		Ex e = tryCall([&] { sb = x.f(); });
		if ((e == ExNone) != x.ok)
			c.fail("StringBuilder%s ended with %s", x.what, exName(e));
		if (!x.ok) {
			c.nontrivial();
			continue;
		}
		SbModel m;
		m.sb = sb;
		m.m = x.text;
		m.max = x.max;
		m.what = std::string("construction ") + x.what;
		m.check(c, true);
		m.checkText(c);
		if (sb->get_Capacity() < x.cap || sb->get_Capacity() < 1)
			c.fail("StringBuilder%s has capacity %d, requested %d", x.what, sb->get_Capacity(), x.cap);
	}
}
PBT_PROP(fill_to_the_limit, 1500) {
	// Exactly the maximum fits, one more does not, through every growing edit.
	int mx = c.coin() ? (int) c.range(1, 12) : (int) c.range(120, 300);
	StringBuilder* sb = new StringBuilder((int) c.draw((uint64_t) mx + 1), mx);
	SbModel a;
	a.sb = sb;
	a.max = mx;
	int first = (int) c.draw((uint64_t) mx + 1);
	a.say(c, SbModel::str("fill %d of %d", first, mx));
	a.edit(c, SbModel::Accept, WS((size_t) first, L'f'), [&] { sb->Append(L'f', first); });
	int room = mx - first, extra = (int) c.near0(-1, 1), add = std::max(room + extra, 0);
	WS w((size_t) add, L'g');
	int at = (int) c.draw((uint64_t) first + 1);
	size_t how = (size_t) c.draw(8);
	a.say(c, SbModel::str("add %d to %d of %d by route %d", add, first, mx, (int) how));
	c.nontrivial();
	bool fits = add <= room;
	switch (how) {
	case 0: a.edit(c, fits, a.m + w, [&] { sb->Append(mk(w)); }); break;
	case 1: a.edit(c, fits, a.m + w, [&] { sb->Append(L'g', add); }); break;
	case 2: a.edit(c, fits, a.m + w, [&] { sb->Append(mkChars(w)); }); break;
	case 3: a.edit(c, fits, a.spliced(at, w), [&] { sb->Insert(at, mk(w)); }); break;
	case 4: a.edit(c, fits, a.spliced(at, w), [&] { sb->Insert(at, mkChars(w)); }); break;
	case 5: a.edit(c, fits, a.spliced(at, w), [&] { sb->Insert(at, mk(L"g"), add); }); break;
	case 6: {
		WS x = a.m;
		x.resize((size_t) (first + add), 0);
		a.edit(c, fits, x, [&] { sb->set_Length(first + add); });
		break;
	}
	default: {
		if (first == 0)
			break;
		WS x = a.m.substr(0, (size_t) first - 1) + w + L"f";
		a.edit(c, SbModel::Accept, a.m.substr(0, (size_t) first - 1) + L"F", [&] { sb->set_Chars(first - 1, L'F'); });
		a.edit(c, fits, x, [&] { sb->Replace(mk(L"F"), mk(w + L"f")); });
	}
	}
	a.check(c, true);
	a.checkText(c);
}
