// C09: a string builder behaves as a sequence of characters under any edits.
#include "sbmodel.h"
PBT_MAIN("C09", "A case is a history of up to forty edits (every append, insert, remove, replace, character, length and capacity overload, arguments mostly in range, texts crossing the 128-character internal buffer) on one or two builders kept in step with a plain "
	"character sequence; length and content are compared after every edit and the text through every route at the end. Non-trivial: three or more accepted edits and a non-empty text at some point; distinct by generated choices.")
namespace {
void history(Case& c, size_t steps, unsigned wild, bool big = false) {
	SbModel a;
	if (big)
		a.grow();
	a.create(c, c.chance(1, 8));
	bool content = false;
	for (size_t i = 0; i < steps; ++i) {
		a.step(c, wild);
		a.check(c, false);
		content = content || !a.m.empty();
		if (c.chance(1, 8))
			a.checkText(c);
	}
	a.checkText(c);
	if (a.edits - a.rejected > 2 && content)
		c.nontrivial();
	if (!a.sb->IsInternal())
		c.label("heap buffer");
	delete a.sb;
}
}
PBT_PROP(short_histories, 3000) { history(c, 1 + c.size(7), 1); }
PBT_PROP(long_histories, 1200) { history(c, 10 + c.steps(31, 200), 1); }
PBT_PROP(large_histories, 40) {
	LongTexts guard(12);
	history(c, 3 + (size_t) c.draw(14), 1, true);
}
PBT_PROP(huge_histories, 4) {
	LongTexts guard(6, true);
	history(c, 3 + (size_t) c.draw(14), 1, true);
}
PBT_PROP(regrown_length, 1500) {
	// Shrinking and extending in every combination must never show earlier content.
	SbModel a;
	a.create(c, c.coin());
	size_t steps = 2 + c.steps(8, 100);
	for (size_t i = 0; i < steps; ++i) {
		int k;
		switch (c.draw(4)) {
		case 0: {
			WS w = WS((size_t) std::min<int64_t>((int64_t) c.draw(c.coin() ? 20 : 200), a.max - a.n()), genChar(c, 1));
			a.say(c, "Append " + show(w));
			a.edit(c, SbModel::Accept, a.m + w, [&] { a.sb->Append(mk(w)); });
			break;
		}
		case 1:
			k = (int) c.draw((uint64_t) a.n() + 1);
			if (c.coin()) {
				a.say(c, SbModel::str("Remove(%d, %d)", k, a.n() - k));
				a.edit(c, SbModel::Accept, a.m.substr(0, (size_t) k), [&] { a.sb->Remove(k, a.n() - k); });
				break;
			}
			a.say(c, SbModel::str("set_Length(%d)", k));
			a.edit(c, SbModel::Accept, a.m.substr(0, (size_t) k), [&] { a.sb->set_Length(k); });
			break;
		case 2: {
			if (a.m.empty())
				break;
			WS x = WS(1, a.m[(size_t) c.draw(a.m.size())]), want;
			for (wchar_t ch : a.m)
				if (ch != x[0])
					want += ch;
			if (x[0] == 0)
				break;
			a.say(c, "Replace " + show(x) + " with nothing");
			a.edit(c, SbModel::Accept, want, [&] { a.sb->Replace(mk(x), String::Empty); });
			break;
		}
		default: {
			k = (int) std::min<int64_t>((int64_t) a.n() + (int64_t) c.draw(c.coin() ? 20 : 200), a.max);
			WS want = a.m;
			want.resize((size_t) k, 0);
			a.say(c, SbModel::str("set_Length(%d)", k));
			if (k > a.n() && a.edits > 0)
				c.nontrivial();
			a.edit(c, SbModel::Accept, want, [&] { a.sb->set_Length(k); });
		}
		}
		a.check(c, false);
	}
	a.checkText(c);
}
PBT_PROP(two_builders, 900) {
	// Builders filled from each other stay independent.
	SbModel a, b;
	a.create(c, false);
	b.create(c, false);
	size_t steps = 2 + c.steps(12, 100);
	for (size_t i = 0; i < steps; ++i) {
		SbModel &x = c.coin() ? a : b, &y = &x == &a ? b : a;
		if (c.chance(1, 4) && x.n() + y.n() < 600) {
			int at = (int) c.draw((uint64_t) x.n() + 1);
			x.say(c, SbModel::str("Insert(%d, the other builder)", at));
			x.edit(c, SbModel::Accept, x.spliced(at, y.m), [&] { x.sb->Insert(at, (Object*) y.sb); });
			if (!y.m.empty())
				c.nontrivial();
		} else
			x.step(c, 1);
		a.check(c, false);
		b.check(c, false);
	}
	bool same = a.m == b.m && a.sb->get_Capacity() == b.sb->get_Capacity() && a.max == b.max;
	if (a.sb->Equals(b.sb) != same || b.sb->Equals(a.sb) != same || !a.sb->Equals(a.sb) || a.sb->Equals((StringBuilder*) nullptr))
		c.fail("equality of builders %s and %s", show(a.m).c_str(), show(b.m).c_str());
	a.checkText(c);
	b.checkText(c);
}
PBT_PROP(equality, 700) {
	// Equal content, capacity and maximum capacity, reached by different histories.
	WS w = genStr(c, 10);
	int cap = 20 + (int) c.draw(100), mx = cap + (int) c.draw(100);
	StringBuilder *x = new StringBuilder(cap, mx), *y = new StringBuilder(cap, mx);
	x->Append(mk(w));
	y->Append(mk(genStr(c, 8)));
	y->Clear();
	for (wchar_t ch : w)
		y->Append((Char) ch);
	c.note("%s capacity %d max %d", show(w).c_str(), cap, mx);
	if (!w.empty())
		c.nontrivial();
	if (!x->Equals(y) || !y->Equals(x))
		c.fail("builders with content %s and the same limits are not equal", show(w).c_str());
	if (!w.empty()) {
		int i = (int) c.draw(w.size());
		y->set_Chars(i, (Char) (w[(size_t) i] ^ 1));
		if (x->Equals(y) || y->Equals(x))
			c.fail("builders differing at %d of %s are equal", i, show(w).c_str());
	}
}
