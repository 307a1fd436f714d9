// C33: exceptions keep their message and cause and are caught by kind.
#include "userobj.h"
#include <memory>
PBT_MAIN("C33", "A case is a chain of up to 3000 exceptions with generated messages, a nest of up to six handlers of generated kinds around a library call or throw that raises a generated error, or an error class of the program's own raised by an object of its own while the library asks it for its text or compares it; the oracle is the chain as built and the .NET exception hierarchy. "
	"Non-trivial: a chain of at least three exceptions, or a nest of at least two handlers with a catching one that is not the innermost or is of a more general kind; distinct by generated choices.")
namespace {
enum Kind { KIndex, KNull, KRank, KRange, KArg, KNotImpl, KCast, KOper, KFormat, KOver, KMinMax, KArith, KDiv, KBase, NK };
const char* kindName[] = {"IndexOutOfRangeException", "ArgumentNullException", "RankException", "ArgumentOutOfRangeException", "ArgumentException", "NotImplementedException",
	"InvalidCastException", "InvalidOperationException", "FormatException", "OverflowException", "ThrowMinMaxException", "ArithmeticException", "DivideByZeroException", "Exception"};
bool isA(int k, int handler) {
	if (k == handler || handler == KBase)
		return true;
	if (handler == KArg)
		return k == KNull || k == KRange || k == KMinMax;
	return handler == KArith && (k == KOver || k == KDiv);
}
Exception* make(int k) {
	switch (k) {
	case KIndex: return new IndexOutOfRangeException();
	case KNull: return new ArgumentNullException();
	case KRank: return new RankException();
	case KRange: return new ArgumentOutOfRangeException();
	case KArg: return new ArgumentException();
	case KNotImpl: return new NotImplementedException();
	case KCast: return new InvalidCastException();
	case KOper: return new InvalidOperationException();
	case KFormat: return new FormatException();
	case KOver: return new OverflowException();
	case KMinMax: return new ThrowMinMaxException();
	case KArith: return new ArithmeticException();
	case KDiv: return new DivideByZeroException();
	default: return new Exception(new String(L"own"));
	}
}
void throwKind(int k) {
	switch (k) {
	case KIndex: throw new IndexOutOfRangeException();
	case KNull: throw new ArgumentNullException();
	case KRank: throw new RankException();
	case KRange: throw new ArgumentOutOfRangeException();
	case KArg: throw new ArgumentException();
	case KNotImpl: throw new NotImplementedException();
	case KCast: throw new InvalidCastException();
	case KOper: throw new InvalidOperationException();
	case KFormat: throw new FormatException();
	case KOver: throw new OverflowException();
	case KMinMax: throw new ThrowMinMaxException();
	case KArith: throw new ArithmeticException();
	case KDiv: throw new DivideByZeroException();
	default: throw new Exception(new String(L"own"));
	}
}
// A library call that ends with this error; false when there is none for the kind.
bool raise(Case& c, int k) {
	static String* s = new String(L"abc");
	static Int32Value* five = new Int32Value(5);
	Int32 r;
	switch (k) {
	case KIndex: s->get_Chars((Int32) c.pick({3, 100, -1})); return true;
	case KNull:
		switch (c.draw(4)) {
		case 0: Int32Value::Parse(nullptr); return true;
		case 1: DoubleValue::Parse(nullptr); return true;
		case 2: CharValue::Parse(nullptr); return true;
		default: CharValue::IsDigit(nullptr, 0); return true;
		}
	case KRange:
		switch (c.draw(4)) {
		case 0: s->Substring(2, 9); return true;
		case 1: DateTime(2001, 2, 29); return true;
		case 2: StringBuilder(-1); return true;
		default: Math::Round(1.0, 16); return true;
		}
	case KArg: five->CompareTo(s); return true;
	case KCast: s->get_AsInt32(); return true;
	case KOper: {
		CharEnumerator* e = s->GetEnumerator();
		e->get_Current();
		return true;
	}
	case KFormat: c.coin() ? (void) Int32Value::Parse(s) : (void) TimeSpanValue::Parse(s); return true;
	case KOver:
		switch (c.draw(3)) {
		case 0: ByteValue::Parse(new String(L"256")); return true;
		case 1: Math::Abs(Int32Value::MinValue); return true;
		default: TimeSpanValue(TimeSpanValue::MinValue).Negate(); return true;
		}
	case KMinMax: Math::Clamp((Int32) 1, (Int32) 3, (Int32) 2); return true;
	case KArith: Math::Sign(DoubleValue::NaN); return true;
	case KDiv: Math::DivRem((Int32) 1, (Int32) 0, r); return true;
	default: return false;
	}
}
struct Caught {
	int handler = -1, kind = -1;
	Exception* as = nullptr;
};
struct Nest {
	Case& c;
	std::vector<int> handlers;                               // outermost first
	int kind;
	bool real;
	Exception* given = nullptr;
	Caught got;
	void body() {
		if (real && raise(c, kind))
			c.fail("the call expected to end with %s returned", kindName[kind]);
		throwKind(kind);
	}
	template<class X> void level(size_t i) {
		try {
			run(i + 1);
		}
		catch (X* e) {
			got.handler = (int) i;
			got.as = e;
		}
	}
	void run(size_t i) {
		if (i == handlers.size())
			return body();
		switch (handlers[i]) {
		case KIndex: return level<IndexOutOfRangeException>(i);
		case KNull: return level<ArgumentNullException>(i);
		case KRank: return level<RankException>(i);
		case KRange: return level<ArgumentOutOfRangeException>(i);
		case KArg: return level<ArgumentException>(i);
		case KNotImpl: return level<NotImplementedException>(i);
		case KCast: return level<InvalidCastException>(i);
		case KOper: return level<InvalidOperationException>(i);
		case KFormat: return level<FormatException>(i);
		case KOver: return level<OverflowException>(i);
		case KMinMax: return level<ThrowMinMaxException>(i);
		case KArith: return level<ArithmeticException>(i);
		case KDiv: return level<DivideByZeroException>(i);
		default: return level<Exception>(i);
		}
	}
};
WS messages[NK];                                            // as first seen in this process
void message(Case& c, int k, Exception* e) {
	if (k == KBase)
		return;
	String* m = e->get_Message();
	if (!m || m->get_Length() == 0)
		c.fail("%s has no message", kindName[k]);
	Exception* again = make(k);
	if (!again->get_Message() || ws(again->get_Message()) != ws(m))
		c.fail("%s says %s once and %s again", kindName[k], show(ws(m)).c_str(), show(ws(again->get_Message())).c_str());
	if (messages[k].empty())
		messages[k] = ws(m);
	if (messages[k] != ws(m))
		c.fail("%s says %s, earlier it said %s", kindName[k], show(ws(m)).c_str(), show(messages[k]).c_str());
	if (e->get_InnerException() != nullptr)
		c.fail("%s has a cause it was not given", kindName[k]);
	if (e->GetBaseException() != e)
		c.fail("the base exception of %s without a cause is not itself", kindName[k]);
}
}
PBT_PROP(handlers, 6000) {
	Nest n{c, {}, (int) c.draw(NK), c.coin()};
	size_t depth = (size_t) c.range(1, 6);
	for (size_t i = 0; i < depth; ++i)
		n.handlers.push_back((int) (c.chance(1, 3) ? c.pick({KArg, KArith, KBase}) : c.draw(NK)));
	if (c.chance(1, 8))
		n.handlers[(size_t) c.draw(depth)] = n.kind;
	int want = -1;
	for (size_t i = 0; i < depth; ++i)
		if (isA(n.kind, n.handlers[i]))
			want = (int) i;
	std::string hs;
	for (int h : n.handlers)
		hs += std::string(" ") + kindName[h];
	c.note("%s %s inside%s", n.real ? "a call raising" : "throw", kindName[n.kind], hs.c_str());
	if (depth > 1 && want >= 0 && (want + 1 < (int) depth || n.handlers[(size_t) want] != n.kind))
		c.nontrivial();
	bool out = false;
	try {
		n.run(0);
	}
	catch (Exception* e) {
		out = true;
		n.got.as = e;
	}
	if (out != (want < 0) || n.got.handler != want)
		c.fail("%s %s inside%s was caught by %d, expected %d (-1: none)", n.real ? "a call raising" : "throw", kindName[n.kind], hs.c_str(), n.got.handler, want);
	message(c, n.kind, n.got.as);
	if (n.got.as->GetRawDataType() != ObjectType)
		c.fail("%s reports type %d", kindName[n.kind], (int) n.got.as->GetRawDataType());
}
// Errors of a program's own, raised by objects of its own while the library works with them.
namespace {
struct OwnError : Exception {
	int code;
	OwnError(int code, String* m, Exception* cause) : Exception(m, cause), code(code) {}
};
struct OwnDerived : OwnError {
	using OwnError::OwnError;
};
struct OwnArgument : ArgumentException {
	int code = 7;
	OwnArgument(String* m) : ArgumentException(m) {}
};
struct OwnNull : ArgumentNullException {
	int code = 7;
};
struct OwnArithmetic : ArithmeticException {
	int code = 7;
	OwnArithmetic(String* m) : ArithmeticException(m) {}
};
struct OwnOverflow : OverflowException {
	int code = 7;
};
struct OwnOperation : InvalidOperationException {
	int code = 7;
};
struct OwnIndex : IndexOutOfRangeException {
	int code = 7;
};
struct OwnFormat : FormatException {
	int code = 7;
};
struct NotOfTheLibrary {
	int code;
};
// What a nest of handlers from the most special to the most general catches it as.
template<class Own, class Base> struct Path {
	template<class F> static int run(F f, Exception*& e, bool special, bool base) {
		try {
			if (special)
				try {
					f();
					return 0;
				}
				catch (Own* x) {
					e = x;
					return 1;
				}
			if (base)
				try {
					f();
					return 0;
				}
				catch (Base* x) {
					e = x;
					return 2;
				}
			f();
			return 0;
		}
		catch (Exception* x) {
			e = x;
			return 3;
		}
	}
};
}
PBT_PROP(own_errors, 3000) {
	int kind = (int) c.draw(10);
	String* m = c.chance(1, 6) ? nullptr : mk(genStr(c, 8));
	WS text = ws(m);
	Exception *cause = c.coin() ? new Exception(new String(L"cause")) : nullptr, *given = nullptr;
	auto fire = [&] {
		switch (kind) {
		case 0: { auto* e = new OwnError(7, m, cause); given = e; throw e; }
		case 1: { auto* e = new OwnDerived(7, m, cause); given = e; throw e; }
		case 2: { auto* e = new OwnArgument(m); given = e; throw e; }
		case 3: { auto* e = new OwnNull(); given = e; throw e; }
		case 4: { auto* e = new OwnArithmetic(m); given = e; throw e; }
		case 5: { auto* e = new OwnOverflow(); given = e; throw e; }
		case 6: { auto* e = new OwnOperation(); given = e; throw e; }
		case 7: { auto* e = new OwnIndex(); given = e; throw e; }
		case 8: { auto* e = new OwnFormat(); given = e; throw e; }
		default: throw NotOfTheLibrary{7};
		}
	};
	// where it is raised: in the text or comparison of an object among others
	size_t n = (size_t) c.range(1, 7), at = (size_t) c.draw(n);
	std::vector<Object*> o;
	for (size_t i = 0; i < n; ++i) {
		WS w;
		o.push_back(c.chance(1, 6) && i != at ? nullptr : user::leaf(c, w));
		if (i != at && o.back())
			((user::Thing*) o.back())->key = 100 + (int) i;
	}
	user::Thing* t = new user::Thing();
	t->how = user::Thing::Plain;
	t->key = 50;
	t->first = fire;
	o[at] = t;
	int how = (int) c.draw(10), deep = (int) c.draw(3);
	Object* bomb = t;
	for (int d = 0; d < deep && how < 8; ++d) {                 // inside the text of another object, several deep
		user::Thing* outer = new user::Thing();
		outer->how = user::Thing::Nested;
		outer->by = (int) c.draw(8);
		outer->text = new String(L"-");
		outer->parts = mkObjs({mk(genStr(c, 3)), bomb});
		bomb = outer;
	}
	o[at] = bomb;
	Array* a = mkObjs(o);
	WS start = genStr(c, 6);
	if (c.chance(1, 6))
		start += WS(200, L'y');
	StringBuilder* sb = new StringBuilder(mk(start));
	String* sep = new String(L", ");
	Object* p[7] = {};
	for (size_t i = 0; i < n; ++i)
		p[i] = o[i];
	int index = (int) c.draw(start.size() + 1);
	user::Thing* probe = new user::Thing();
	probe->key = 50;
	auto call = [&] {
		switch (how) {
		case 0: String::Concat(a); return;
		case 1: String::Concat(p[0], p[1], p[2], p[3], p[4], p[5], p[6]); return;
		case 2: String::Join(sep, a); return;
		case 3: String::Join((Char) L'+', a); return;
		case 4: String::Join(sep, a, (Int32) at, 1); return;
		case 5: sb->Append(bomb); return;
		case 6: sb->Insert(index, bomb); return;
		case 7: bomb->ToString(); return;
		case 8: Array::IndexOf(a, probe); return;
		default: Object::Equals(t, probe); return;
		}
	};
	c.note("own error %d raised by object %d of %d (%d deep) in call %d", kind, (int) at, (int) n, how < 8 ? deep : 0, how);
	c.nontrivial();
	Exception* got = nullptr;
	int as = -1, code = 0;
	bool special = c.coin(), base = c.coin();
	try {
		switch (kind) {
		case 0: as = Path<OwnError, Exception>::run(call, got, special, base); break;
		case 1: as = Path<OwnDerived, OwnError>::run(call, got, special, base); break;
		case 2: as = Path<OwnArgument, ArgumentException>::run(call, got, special, base); break;
		case 3: as = Path<OwnNull, ArgumentException>::run(call, got, special, base); break;
		case 4: as = Path<OwnArithmetic, ArithmeticException>::run(call, got, special, base); break;
		case 5: as = Path<OwnOverflow, ArithmeticException>::run(call, got, special, base); break;
		case 6: as = Path<OwnOperation, InvalidOperationException>::run(call, got, special, base); break;
		case 7: as = Path<OwnIndex, IndexOutOfRangeException>::run(call, got, special, base); break;
		case 8: as = Path<OwnFormat, FormatException>::run(call, got, special, base); break;
		default: as = Path<OwnError, ArgumentException>::run(call, got, special, base);
		}
	}
	catch (NotOfTheLibrary& e) {
		as = 4;
		code = e.code;
	}
	int want = kind == 9 ? 4 : special ? 1 : base ? 2 : 3;
	if (as != want || (as == 4 && code != 7))
		c.fail("own error %d in call %d was caught as %d, expected %d (0 lost, 1 itself, 2 its base, 3 Exception, 4 not of the library)", kind, how, as, want);
	if (kind < 9) {
		if (got != given)
			c.fail("own error %d in call %d: another error arrived", kind, how);
		if (kind < 2 && ((dynamic_cast<OwnError*>(got) == nullptr || ((OwnError*) got)->code != 7) || got->get_Message() != m || got->get_InnerException() != cause || got->GetBaseException() != (cause ? cause : got)))
			c.fail("own error %d in call %d lost its message, cause or code", kind, how);
		if ((kind == 2 || kind == 4) && (got->get_Message() != m || got->get_InnerException() || got->GetBaseException() != got))
			c.fail("own error %d in call %d lost its message or has a cause it was not given", kind, how);
		if (ws(m) != text)
			c.fail("the message of own error %d changed", kind);
	}
	if (WS(sb->get_Buffer(), (size_t) sb->get_Length()) != start)
		c.fail("a failed call changed the builder");
	// everything works as before
	t->first = nullptr;
	t->how = user::Thing::Text;
	t->text = new String(L"<t>");
	expectStr(c, "Concat afterwards", String::Concat(t, sep, t), L"<t>, <t>");
	sb->Insert(index, (Object*) t);
	expectStr(c, "the builder afterwards", sb->ToString(), start.substr(0, (size_t) index) + L"<t>" + start.substr((size_t) index));
	if (Array::IndexOf(mkObjs({nullptr, t, t}), probe) != 1)
		c.fail("IndexOf afterwards");
}
PBT_PROP(chains, 4000) {
	struct One {
		Exception* e;
		String* m;
		WS text;
	};
	std::vector<One> chain;                                  // innermost first
	size_t n = (size_t) c.range(1, 12);
	if (c.chance(1, 150))                                    // a long one
		n = (size_t) c.uedge(13, 3000);
	for (size_t i = 0; i < n; ++i) {
		One o;
		WS t = i < 12 ? genStr(c, 12, 1) : WS(L"cause ") + std::to_wstring(i);
		o.m = i < 12 && c.chance(1, 8) ? nullptr : mk(t);
		o.text = ws(o.m);
		if (i == 0) {
			int k = (int) c.draw(NK);
			if (c.coin() || k == KBase)
				o.e = o.m ? new Exception(o.m) : new Exception();
			else {
				o.e = make(k);
				o.m = o.e->get_Message();
				o.text = ws(o.m);
			}
		}
		else
			o.e = new Exception(o.m, chain.back().e);
		chain.push_back(o);
	}
	c.note("%d exceptions", (int) n);
	if (n >= 3)
		c.nontrivial();
	// the outermost travels through the program; each is looked at in a generated order, twice
	Exception* seen = nullptr;
	try {
		throw chain.back().e;
	}
	catch (Exception* e) {
		seen = e;
	}
	if (seen != chain.back().e)
		c.fail("another exception arrived");
	for (size_t k = 0; k < std::min<size_t>(2 * n, 60); ++k) {
		size_t i = (size_t) c.draw(n);
		One& o = chain[i];
		if (o.e->get_InnerException() != (i ? chain[i - 1].e : nullptr))
			c.fail("exception %d of %d lost its cause", (int) i, (int) n);
		if (o.e->GetBaseException() != chain[0].e)
			c.fail("the base exception of exception %d of %d is %s", (int) i, (int) n, o.e->GetBaseException() ? "another one" : "null");
		if (o.e->get_Message() != o.m && (!o.m || !o.e->get_Message() || ws(o.e->get_Message()) != o.text))
			c.fail("exception %d of %d lost its message %s", (int) i, (int) n, show(o.text).c_str());
		if (o.m && ws(o.m) != o.text)
			c.fail("the message %s of exception %d of %d changed", show(o.text).c_str(), (int) i, (int) n);
	}
}
