#pragma once
#include "values.h"
#include "userobj.h"
#include "changing.h"
#include <cstdarg>
// A library string builder run in step with a plain character sequence.
struct SbModel {
	StringBuilder* sb = nullptr;
	WS m;
	int max = INT32_MAX;
	int cap = 0;                     // capacity after the previous step
	int requested = 0;               // capacity asked for and granted so far
	std::string what;                // the step under way
	int rejected = 0, grown = 0, edits = 0;
	int limit = 1200;                // lengths stay below this unless the maximum capacity is smaller
	bool big = false;                // long texts, lengths and capacities as well
	void grow() {
		big = true;
		limit = 100000;
	}
	// A length, count or capacity to aim at: one of the boundaries of genLongLen now and then.
	int aim(Case& c, int otherwise) { return big && c.chance(longHuge() ? 2 : 1, 3) ? (int) genLongLen(c) : otherwise; }
	int most() const { return big ? longHuge() ? 400000 : 150000 : 2000; }

	enum { Reject, Accept, Either };
	// Runs one edit.  want is the content after an accepted edit; Either: an error without effect is as good.
	template<class F> bool edit(Case& c, int mode, const WS& want, F f) {
		if (mode != Reject && want.size() > (size_t) max)
			mode = Reject;
		WS before = m;
		int capBefore = sb->get_Capacity();
		Ex e = tryCall(f);
		++edits;
		if (e == ExNone) {
			if (mode == Reject)
				c.fail("%s was accepted on %s (max %d) and gave %s, expected an error", what.c_str(), show(before).c_str(), max, show(text()).c_str());
			m = want;
		} else {
			if (mode == Accept)
				c.fail("%s on %s (capacity %d, max %d) raised %s, expected %s", what.c_str(), show(before).c_str(), capBefore, max, exName(e), show(want).c_str());
			++rejected;
			if (text() != before)
				c.fail("%s was rejected but changed %s to %s", what.c_str(), show(before).c_str(), show(text()).c_str());
			if (sb->get_Capacity() != capBefore || sb->get_MaxCapacity() != max)
				c.fail("%s was rejected but changed the capacity from %d/%d to %d/%d", what.c_str(), capBefore, max, sb->get_Capacity(), sb->get_MaxCapacity());
		}
		return e == ExNone;
	}
	WS text() { return WS(sb->get_Buffer(), (size_t) sb->get_Length()); }
	// The complete observable state against the model.
	void check(Case& c, bool limits) {
		if (sb->get_Length() != (Int32) m.size())
			c.fail("after %s the length is %d, expected %d", what.c_str(), sb->get_Length(), (int) m.size());
		if (text() != m)
			c.fail("after %s the content is %s, expected %s", what.c_str(), show(text()).c_str(), show(m).c_str());
		int k = sb->get_Capacity();
		if (sb->get_MaxCapacity() != max)
			c.fail("after %s the maximum capacity is %d, expected %d", what.c_str(), sb->get_MaxCapacity(), max);
		if (limits) {
			if (k < (int) m.size() || k > max)
				c.fail("after %s the capacity is %d with length %d and maximum %d", what.c_str(), k, (int) m.size(), max);
			if (k < requested)
				c.fail("after %s the capacity is %d although %d were requested and granted", what.c_str(), k, requested);
			if (k > cap)
				++grown;
			cap = k;
		}
	}
	void checkText(Case& c) {
		expectStr(c, ("ToString after " + what).c_str(), sb->ToString(), m);
		Object* o = sb;
		expectStr(c, ("Object ToString after " + what).c_str(), o->ToString(), m);
		if (!m.empty()) {
			int i = (int) c.draw(m.size());
			if (sb->get_Chars(i) != m[(size_t) i] || *sb->Address(i) != m[(size_t) i])
				c.fail("after %s character %d of %s reads %d", what.c_str(), i, show(m).c_str(), sb->get_Chars(i));
		}
	}
	void say(Case& c, const std::string& s) {
		what = s;
		c.note("%s", s.c_str());
	}
	static std::string str(const char* f, ...) __attribute__((format(printf, 1, 2))) {
		char b[1500];
		va_list ap;
		va_start(ap, f);
		vsnprintf(b, sizeof b, f, ap);
		va_end(ap);
		return b;
	}
	int n() const { return (int) m.size(); }
	int arg(Case& c, int64_t len, unsigned wild) {
		if (c.chance(wild, 20))
			return c.chance(1, 3) ? (int) c.edge(INT32_MIN, INT32_MAX) : (int) (c.coin() ? len + 1 + (int64_t) c.draw(3) : -1 - (int64_t) c.draw(3));
		return c.coin() ? (int) c.draw((uint64_t) len + 1) : c.coin() ? (int) len : 0;
	}
	// A text to add: usually short, sometimes about as long as the room left or the internal buffer.
	WS piece(Case& c, int room) {
		if (big && c.chance(1, 6))
			return genLong(c, c.coin());
		switch (c.weighted({10, 2, 2})) {
		case 0:
			return genStr(c, 7, c.coin());
		case 1: {
			int64_t want = (int64_t) room + c.near0(-2, 2);
			return WS((size_t) std::min<int64_t>(std::max<int64_t>(want, 0), big ? 70000 : 300), genChar(c, 1));
		}
		default: {
			WS r = genStr(c, 4, 1) + L"q", out;
			size_t k = (size_t) c.draw(160);
			while (out.size() < k)
				out += r;
			out.resize(k);
			return out;
		}
		}
	}
	void create(Case& c, bool limited) {
		switch (limited ? 4 : c.weighted({3, 2, 2, 2, 1})) {
		case 0:
			say(c, "new StringBuilder()");
			sb = made<StringBuilder>(c);
			break;
		case 1: {
			int k = aim(c, (int) c.draw(300));
			say(c, str("new StringBuilder(%d)", k));
			sb = made<StringBuilder>(c, (Int32) k);
			requested = k;
			if (sb->get_Capacity() < k)
				c.fail("%s has capacity %d", what.c_str(), sb->get_Capacity());
			break;
		}
		case 2: {
			WS w = piece(c, 128);
			int k = aim(c, (int) c.draw(300));
			say(c, str("new StringBuilder(%s, %d)", show(w).c_str(), k));
			sb = c.coin() ? made<StringBuilder>(c, mk(w)) : made<StringBuilder>(c, mk(w), k);
			m = w;
			break;
		}
		case 3: {
			WS w = piece(c, 128);
			int i = (int) c.draw(w.size() + 1), k = (int) c.draw(w.size() - (size_t) i + 1), cp = aim(c, (int) c.draw(300));
			say(c, str("new StringBuilder(%s, %d, %d, %d)", show(w).c_str(), i, k, cp));
			sb = made<StringBuilder>(c, mk(w), i, k, cp);
			requested = cp;
			m = w.substr((size_t) i, (size_t) k);
			if (sb->get_Capacity() < cp)
				c.fail("%s has capacity %d", what.c_str(), sb->get_Capacity());
			break;
		}
		default:
			static const int maxes[] = {1, 2, 3, 5, 10, 20, 127, 128, 129, 130, 200, 255, 256, 257, 300, 1000, INT32_MAX};
			max = c.pick(maxes);
			max = aim(c, max);
			int k = std::min(max, aim(c, (int) c.draw((uint64_t) std::min(max, 400) + 1)));
			say(c, str("new StringBuilder(%d, %d)", k, max));
			sb = made<StringBuilder>(c, k, max);
			requested = k;
			if (sb->get_Capacity() < k)
				c.fail("%s has capacity %d", what.c_str(), sb->get_Capacity());
		}
		max = sb->get_MaxCapacity() == max ? max : (c.fail("%s has maximum capacity %d", what.c_str(), sb->get_MaxCapacity()), 0);
		cap = sb->get_Capacity();
		check(c, true);
	}
	WS spliced(int at, const WS& w) const { return m.substr(0, (size_t) at) + w + m.substr((size_t) at); }
	// One random operation.  wild (of 20) is how often an argument is out of range.
	void step(Case& c, unsigned wild) {
		int room = max - n();
		if (n() > limit) {
			say(c, "Clear()");
			edit(c, Accept, L"", [&] { sb->Clear(); });
			return;
		}
		switch (c.weighted({6, 4, 3, 3, 6, 4, 6, 5, 4, 5, 2, 2, 3, 2, 2, 2, 2})) {
		case 0: {
			WS w = piece(c, room);
			if (c.chance(1, 8)) {
				// characters from the caller's memory, which holds no more than those
				int at = c.coin() ? -1 : arg(c, n(), wild);
				bool ok = at >= -1 && at <= n();
				say(c, str("Append(%s as characters, %d, %d)", show(w).c_str(), (int) w.size(), at));
				std::unique_ptr<Char[]> from(new Char[w.size()]);
				std::copy(w.begin(), w.end(), from.get());
				edit(c, ok ? Accept : Reject, ok ? spliced(at < 0 ? n() : at, w) : m, [&] { sb->Append(from.get(), (Int32) w.size(), at); });
				return;
			}
			String* s = c.chance(1, 10) ? (w.clear(), nullptr) : mk(w);
			if (c.coin()) {
				say(c, str("Append(%s)", show(w).c_str()));
				edit(c, Accept, m + w, [&] { c.coin() ? sb->Append(s) : sb->Append((Object*) s); });
			} else {
				int i = arg(c, (int64_t) w.size(), wild), k = i >= 0 && i <= (int) w.size() ? arg(c, (int64_t) w.size() - i, wild) : arg(c, (int64_t) w.size(), wild);
				say(c, str("Append(%s, %d, %d)", s ? show(w).c_str() : "null", i, k));
				bool ok = i >= 0 && k >= 0 && i <= (int) w.size() && k <= (int) w.size() - i;
				edit(c, ok ? Accept : i >= 0 && k < 0 && (i == 0 || i <= (int) w.size()) ? Either : Reject, m + (ok ? w.substr((size_t) i, (size_t) k) : i <= (int) w.size() && i >= 0 ? w.substr((size_t) i) : L""),
					[&] { sb->Append(s, i, k); });
			}
			return;
		}
		case 1: {
			wchar_t ch = c.chance(1, 20) ? 0 : genChar(c);
			if (c.coin()) {
				say(c, str("Append(%s)", show(ch).c_str()));
				edit(c, Accept, m + ch, [&] { sb->Append((Char) ch); });
			} else {
				int k = c.chance(wild, 20) ? (int) c.range(INT32_MIN, -1) : c.chance(1, 4) ? std::min(room + (int) c.near0(-2, room > INT32_MAX - 9 ? 0 : 2), big ? 70000 : 300) : aim(c, (int) c.draw(20));
				if (c.chance(wild, 60) && max < 2000)
					k = (int) c.edge(max, INT32_MAX);
				say(c, str("Append(%s, %d)", show(ch).c_str(), k));
				edit(c, k < 0 || k > room ? Reject : Accept, k < 0 || k > room ? m : m + WS((size_t) k, ch), [&] { sb->Append((Char) ch, k); });
			}
			return;
		}
		case 2: {
			WS w = piece(c, room);
			Array* a = c.chance(1, 12) ? (w.clear(), nullptr) : mkChars(w);
			if (c.coin()) {
				say(c, str("Append(Char[] %s)", show(w).c_str()));
				edit(c, Accept, m + w, [&] { sb->Append(a); });
			} else {
				int i = arg(c, (int64_t) w.size(), wild), k = i >= 0 && i <= (int) w.size() ? arg(c, (int64_t) w.size() - i, wild) : arg(c, (int64_t) w.size(), wild);
				say(c, str("Append(Char[] %s, %d, %d)", a ? show(w).c_str() : "null", i, k));
				bool ok = i >= 0 && k >= 0 && i <= (int) w.size() && k <= (int) w.size() - i;
				if (!a)
					edit(c, Either, m, [&] { sb->Append(a, i, k); });
				else if (ok || (i >= 0 && k >= 0))
					edit(c, ok, ok ? m + w.substr((size_t) i, (size_t) k) : m, [&] { sb->Append(a, i, k); });
				else {
					// negative means default here: start 0, the whole array
					int i2 = std::max(i, 0), k2 = k < 0 ? (int) w.size() : k;
					bool in = i2 <= (int) w.size() && k2 <= (int) w.size() - i2;
					edit(c, in ? Either : Reject, in ? m + w.substr((size_t) i2, (size_t) k2) : m, [&] { sb->Append(a, i, k); });
				}
			}
			return;
		}
		case 3: {
			WS t;
			std::function<void()> f;
			value(c, t, f, 0, false);
			say(c, str("Append(value %s)", show(t).c_str()));
			edit(c, Accept, m + t, f);
			return;
		}
		case 4: {
			WS w = piece(c, room);
			int i = arg(c, n(), wild);
			bool ok = i >= 0 && i <= n();
			String* s = c.chance(1, 10) ? (w.clear(), nullptr) : mk(w);
			say(c, str("Insert(%d, %s)", i, s ? show(w).c_str() : "null"));
			edit(c, ok, ok ? spliced(i, w) : m, [&] { c.coin() ? sb->Insert(i, s) : sb->Insert(i, (Object*) s); });
			return;
		}
		case 5: {
			int i = arg(c, n(), wild);
			bool ok = i >= 0 && i <= n();
			switch (c.draw(4)) {
			case 0: {
				WS w = genStr(c, 5);
				int k = c.chance(wild, 20) ? (int) c.edge(INT32_MIN, -1) : (int) c.draw(6);
				if (c.chance(wild, 60) && max < 2000 && !w.empty())
					k = (int) c.edge(max, INT32_MAX);
				ok = ok && k >= 0 && (int64_t) k * (int64_t) w.size() <= room;
				WS rep;
				for (int j = 0; ok && !w.empty() && j < k; ++j)
					rep += w;
				say(c, str("Insert(%d, %s, %d)", i, show(w).c_str(), k));
				edit(c, ok, ok ? spliced(i, rep) : m, [&] { sb->Insert(i, mk(w), k); });
				return;
			}
			case 1: {
				WS w = piece(c, room);
				Array* a = mkChars(w);
				if (c.coin()) {
					say(c, str("Insert(%d, Char[] %s)", i, show(w).c_str()));
					edit(c, ok, ok ? spliced(i, w) : m, [&] { sb->Insert(i, a); });
				} else {
					int from = arg(c, (int64_t) w.size(), wild), k = from >= 0 && from <= (int) w.size() ? arg(c, (int64_t) w.size() - from, wild) : arg(c, (int64_t) w.size(), wild);
					int i2 = std::max(from, 0), k2 = k < 0 ? (int) w.size() : k;
					bool in = i2 <= (int) w.size() && k2 <= (int) w.size() - i2;
					say(c, str("Insert(%d, Char[] %s, %d, %d)", i, show(w).c_str(), from, k));
					edit(c, !ok || !in ? Reject : from >= 0 && k >= 0 ? Accept : Either, ok && in ? spliced(i, w.substr((size_t) i2, (size_t) k2)) : m, [&] { sb->Insert(i, a, from, k); });
				}
				return;
			}
			default: {
				WS t;
				std::function<void()> f;
				value(c, t, f, i, true);
				say(c, str("Insert(%d, value %s)", i, show(t).c_str()));
				edit(c, ok, ok ? spliced(i, t) : m, f);
			}
			}
			return;
		}
		case 6: {
			int i = arg(c, n(), wild), k = i >= 0 && i <= n() ? arg(c, n() - i, wild) : arg(c, n(), wild);
			bool ok = i >= 0 && k >= 0 && i <= n() && k <= n() - i;
			say(c, str("Remove(%d, %d)", i, k));
			edit(c, ok, ok ? m.substr(0, (size_t) i) + m.substr((size_t) (i + k)) : m, [&] { sb->Remove(i, k); });
			return;
		}
		case 7: {
			WS a = genNeedle(c, m, 4), b = genStr(c, 6, 1);
			bool whole = c.coin();
			int i = whole ? 0 : arg(c, n(), wild), k = whole ? n() : i >= 0 && i <= n() ? arg(c, n() - i, wild) : arg(c, n(), wild);
			bool range = i >= 0 && k >= 0 && i <= n() && k <= n() - i, nullB = c.chance(1, 8), nullA = c.chance(wild, 60);
			size_t places = 0;
			for (size_t p = m.find(a); p != WS::npos && !a.empty(); p = m.find(a, p + a.size()))
				++places;
			if (places * b.size() > 200000)                              // a long replacement only where there are few places for it
				b.resize(std::min<size_t>(b.size(), 6));
			if ((double) places * (double) (m.size() + places * b.size()) > 3e8)
				a = m.substr(0, 5000);                                   // every replacement may move the rest of the text: bound the work
			if (nullB)
				b.clear();
			say(c, str("Replace(%s, %s, %d, %d)", nullA ? "null" : show(a).c_str(), nullB ? "null" : show(b).c_str(), i, k));
			bool ok = range && !nullA && !a.empty();
			WS mid;
			if (ok) {
				for (size_t p = (size_t) i, end = (size_t) (i + k); p < end;)
					if (p + a.size() <= end && m.compare(p, a.size(), a) == 0) {
						mid += b;
						p += a.size();
					} else
						mid += m[p++];
				mid = m.substr(0, (size_t) i) + mid + m.substr((size_t) (i + k));
			}
			String *sa = nullA ? nullptr : mk(a), *sbb = nullB ? nullptr : mk(b);
			edit(c, ok, ok ? mid : m, [&] { whole ? sb->Replace(sa, sbb) : sb->Replace(sa, sbb, i, k); });
			return;
		}
		case 8: {
			wchar_t x = m.empty() ? genChar(c) : m[(size_t) c.draw(m.size())], y = genChar(c);
			if (c.chance(1, 8))
				x = related(c, x);
			bool whole = c.coin();
			int i = whole ? 0 : arg(c, n(), wild), k = whole ? n() : i >= 0 && i <= n() ? arg(c, n() - i, wild) : arg(c, n(), wild);
			bool ok = i >= 0 && k >= 0 && i <= n() && k <= n() - i;
			say(c, str("Replace(%s, %s, %d, %d)", show(x).c_str(), show(y).c_str(), i, k));
			WS w = m;
			for (int p = i; ok && p < i + k; ++p)
				if (w[(size_t) p] == x)
					w[(size_t) p] = y;
			edit(c, ok, w, [&] { whole ? sb->Replace((Char) x, (Char) y) : sb->Replace((Char) x, (Char) y, i, k); });
			return;
		}
		case 9: {
			int k = c.chance(wild, 20) ? (c.coin() || max > most() ? (int) c.edge(INT32_MIN, -1) : (int) c.edge(max, INT32_MAX)) : c.coin() ? (int) c.draw((uint64_t) n() + 1) : std::min(aim(c, n() + (int) c.draw(40)), max > most() ? most() : max + 2);
			bool ok = k >= 0 && k <= max;
			WS w = m;
			if (ok)
				w.resize((size_t) k, 0);
			say(c, str("set_Length(%d)", k));
			edit(c, ok, w, [&] { sb->set_Length(k); });
			return;
		}
		case 10:
			if (!m.empty() && c.chance(1, 4)) {
				say(c, "Clear()");
				edit(c, Accept, L"", [&] { sb->Clear(); });
				return;
			}
			// fall through
		case 11: {
			wchar_t ch = genChar(c);
			int i = arg(c, n(), wild);
			bool ok = i >= 0 && i < n();
			WS w = m;
			if (ok)
				w[(size_t) i] = ch;
			say(c, str("set_Chars(%d, %s)", i, show(ch).c_str()));
			edit(c, ok, w, [&] { c.coin() ? sb->set_Chars(i, ch) : (void) (*sb->Address(i) = ch); });
			return;
		}
		case 12: {
			int k = c.chance(wild, 20) ? (c.coin() || max > most() ? (int) c.edge(INT32_MIN, -1) : (int) c.edge(max, INT32_MAX)) : std::min(aim(c, c.coin() ? n() + (int) c.draw(200) : (int) c.draw((uint64_t) n() + 3)), max > most() ? most() : max + 2);
			int before = sb->get_Capacity();
			if (c.coin()) {
				say(c, str("EnsureCapacity(%d)", k));
				int got = -1;
				if (edit(c, k >= 0 && k <= max, m, [&] { got = sb->EnsureCapacity(k); }) && (got < k || got != sb->get_Capacity() || got < before))
					c.fail("%s returned %d with capacity %d before and %d after", what.c_str(), got, before, sb->get_Capacity());
				if (got >= k)
					requested = std::max(requested, k);
			} else {
				say(c, str("set_Capacity(%d)", k));
				// a smaller capacity may be refused
				int mode = k >= n() && k <= max ? (k < before ? Either : Accept) : Reject;
				if (edit(c, mode, m, [&] { sb->set_Capacity(k); })) {
					if (sb->get_Capacity() < k)
						c.fail("%s left capacity %d", what.c_str(), sb->get_Capacity());
					requested = k;
				}
				cap = std::min(cap, sb->get_Capacity());
			}
			return;
		}
		case 13: {
			if (c.coin()) {
				say(c, "AppendLine()");
				edit(c, Accept, m + L"\r\n", [&] { sb->AppendLine(); });
			} else {
				WS w = piece(c, room);
				String* s = c.chance(1, 8) ? (w.clear(), nullptr) : mk(w);
				say(c, str("AppendLine(%s)", s ? show(w).c_str() : "null"));
				edit(c, Accept, m + w + L"\r\n", [&] { sb->AppendLine(s); });
			}
			return;
		}
		case 16:
			c.chance(1, 3) ? changing(c, wild) : own(c, room, wild);
			return;
		case 14: {
			if (n() > (big ? 40000 : 400))
				return;
			if (c.coin()) {
				say(c, "Append(itself)");
				edit(c, Accept, m + m, [&] { sb->Append((Object*) sb); });
			} else {
				int i = (int) c.draw((uint64_t) n() + 1);
				say(c, str("Insert(%d, itself)", i));
				edit(c, Accept, spliced(i, m), [&] { sb->Insert(i, (Object*) sb); });
			}
			return;
		}
		default: {
			int i = arg(c, n(), wild), k = i >= 0 && i <= n() ? arg(c, n() - i, wild) : arg(c, n(), wild);
			bool ok = i >= 0 && k >= 0 && i <= n() && k <= n() - i;
			say(c, str("ToString(%d, %d)", i, k));
			String* r = nullptr;
			Ex e = tryCall([&] { r = sb->ToString(i, k); });
			if ((e == ExNone) != ok)
				c.fail("%s on %s ended with %s", what.c_str(), show(m).c_str(), exName(e));
			if (ok)
				expectStr(c, what.c_str(), r, m.substr((size_t) i, (size_t) k));
		}
		}
	}
	// The same character array or other builder over and over, its content changing in between.
	ChangingChars* chars = nullptr;
	StringBuilder* other = nullptr;
	WS otherText;
	void changing(Case& c, unsigned wild) {
		int i = c.coin() ? -1 : arg(c, n(), wild);
		bool ok = i >= -1 && i <= n();
		if (c.coin()) {
			if (!chars)
				chars = new ChangingChars(genStr(c, 6, 1));
			else
				chars->change(c, genChar(c));
			say(c, (i < 0 ? "Append(" : str("Insert(%d, ", i)) + "kept Char[] " + show(chars->m) + ")");
			edit(c, ok, ok ? spliced(i < 0 ? n() : i, chars->m) : m, [&] { i == -1 ? sb->Append(chars->a) : sb->Insert(i, chars->a); });
			return;
		}
		if (!other) {
			otherText = genStr(c, 6, 1);
			other = new StringBuilder(mk(otherText));
		} else
			switch (c.draw(4)) {
			case 0: {
				WS x = c.chance(1, 6) ? WS((size_t) c.range(60, 140), L'o') : genStr(c, 4, 1);
				if (otherText.size() < 400) {
					other->Append(mk(x));
					otherText += x;
				}
				break;
			}
			case 1: {
				int k = (int) c.draw(otherText.size() + 1);
				other->set_Length(k);
				otherText.resize((size_t) k);
				break;
			}
			case 2:
				if (!otherText.empty()) {
					size_t k = (size_t) c.draw(otherText.size());
					otherText[k] = genChar(c);
					other->set_Chars((Int32) k, otherText[k]);
				}
				break;
			default:
				break;
			}
		say(c, (i < 0 ? "Append(" : str("Insert(%d, ", i)) + "other builder " + show(otherText) + ")");
		edit(c, ok, ok ? spliced(i < 0 ? n() : i, otherText) : m, [&] { i == -1 ? sb->Append((Object*) other) : sb->Insert(i, (Object*) other); });
		if (WS(other->get_Buffer(), (size_t) other->get_Length()) != otherText)
			c.fail("%s changed the other builder", what.c_str());
	}
	// Objects of the program's own, whose text is asked for while the edit is under way: some use other builders for
	// it, some edit this one first, some end with an error of their own.
	void own(Case& c, int room, unsigned wild) {
		int i = c.coin() ? -1 : arg(c, n(), wild);
		bool ok = i >= -1 && i <= n();
		WS w;
		user::Thing* t = (user::Thing*) user::thing(c, w);
		std::string call = i < 0 ? "Append(" : str("Insert(%d, ", i);
		auto run = [&] { i == -1 ? sb->Append((Object*) t) : sb->Insert(i, (Object*) t); };
		switch (c.weighted({5, 2, 1})) {
		case 0:
			say(c, call + "own object " + show(w) + ")");
			edit(c, ok, ok ? spliced(i < 0 ? n() : i, w) : m, run);
			return;
		case 1: {
			if (!ok || (int64_t) w.size() > room / 2)
				return;
			WS x = genStr(c, 5, 1);
			if (c.chance(1, 4))
				x = WS((size_t) c.range(100, 300), L'x');
			if ((int64_t) x.size() > room / 2)
				x.resize((size_t) (room / 2));
			String* xs = mk(x);
			bool done = false;                            // however often the text is asked for
			t->first = [&] {
				if (!done)
					sb->Append(xs);
				done = true;
			};
			say(c, call + "own object " + show(w) + " that first appends " + show(x) + ")");
			WS before = m;
			m += x;
			WS want = spliced(i < 0 ? n() : i, w);
			m = before;
			edit(c, Accept, want, run);
			t->first = nullptr;
			return;
		}
		default: {
			Exception* given = c.coin() ? new Exception(new String(L"own")) : new InvalidOperationException();
			t->first = [&] { throw given; };
			say(c, call + "own object that ends with an error)");
			Exception* got = nullptr;
			edit(c, Reject, m, [&] {
				try {
					run();
				}
				catch (Exception* e) {
					got = e;
					throw;
				}
			});
			t->first = nullptr;
			if (ok && got != given)
				c.fail("%s ended with another error than the object's", what.c_str());
		}
		}
	}
	void value(Case& c, WS& t, std::function<void()>& f, int at, bool inserting) {
		size_t k = (size_t) c.draw(12);
		StringBuilder* s = sb;
		if (k < 8) {
			const IntType& it = intTypes()[k];
			i128 v = genInt(c, it);
			t = wide(dec(v));
			f = inserting ? std::function<void()>([=, &it] { it.sbInsert(s, at, v); }) : std::function<void()>([=, &it] { it.sbAppend(s, v); });
		} else if (k == 8) {
			bool b = c.coin();
			t = b ? L"True" : L"False";
			f = [=] { inserting ? s->Insert(at, (Boolean) b) : s->Append((Boolean) b); };
		} else if (k == 9) {
			Char ch = genChar(c);
			t = WS(1, ch);
			f = [=] { inserting ? s->Insert(at, ch) : s->Append(ch); };
		} else if (k == 10) {
			double d = genDouble(c);
			t = ws(DoubleValue(d).ToString());
			f = [=] { inserting ? s->Insert(at, d) : s->Append(d); };
		} else {
			float d = genFloat(c);
			t = ws(SingleValue(d).ToString());
			f = [=] { inserting ? s->Insert(at, d) : s->Append(d); };
		}
	}
};
