// C26  Running translated code is repeatable and contains its exceptions
#include "guest.h"
#include "lib.h"
#include <DotNetLibrarySupport.h>
#include <fcntl.h>
PBT_MAIN("C26", "a history of at least 3 runs in one process in which some run ends by an exception and a later run follows, or platform data is changed in one run and read in a later one")

namespace {
enum Kind {
	KSend, KSendElem, KSendDouble, KStore, KStoreViaSetValue, KThrowLib, KThrowCustom, KThrowCall, KCatchInside, KBuild, KJunk, KDeleteWrapper,
	KBoxText, KRethrow, KSum, KThrowBare, KHold, KSendHeld, KStoreHeld, KTwin, KSendTwin, KSendLong, KThrowLong, KOwnText, KOwnThrow, KOwnCatch, KCount
};
struct Op {
	uint8_t kind;
	int a, b;
};
struct Prog {
	int n;
	Op op[24];
	bool probe;        // ends by counting how many 8-byte blocks remain
	bool stackObject;
};
struct Step {
	bool platform;     // the platform changes element a to b
	int prog, a, b;
	int times;         // runs of the program in this step
};
struct Plan {
	int nprog, nstep;
	Prog prog[5];
	Step step[24];
};
Plan plan;
// State seen by the guest while a program runs; the model predicts the text and the data.
GuestShm* gs;
long remaining[5][2];
int curProg;
const char* kLit[] = {"alpha", "", "a longer message 0123456789", "x", "50% done %s %d"};

int callKinds() { return 8; }
// A call that the library must reject; the same call made in ordinary heap mode gives the expected text.
void badCall(int k, int a) {
	switch (k % 8) {
	case 0:
		Int32Value::Parse(new String(L"12x"));
		break;
	case 1:
		(new Array(Int32Type, 3))->SetValue((Object*) new Int32Value(1), 3 + (int) ((unsigned) a % 9));
		break;
	case 2:
		(new String(L"hello"))->Substring(6 + (int) ((unsigned) a % 9));
		break;
	case 3:
		String::Join(nullptr, nullptr);
		break;
	case 4:
		(new StringBuilder())->Append(L'x', -1);
		break;
	case 5:
		Math::Abs((Int32) -2147483647 - 1);
		break;
	case 6:
		DateTime(10000, 1, 1);
		break;
	default:
		new Array(Int32Type, -1);
	}
}
Exception* libException(int k) {
	switch (k % 13) {
	case 0: return new IndexOutOfRangeException();
	case 1: return new ArgumentNullException();
	case 2: return new RankException();
	case 3: return new ArgumentOutOfRangeException();
	case 4: return new ArgumentException();
	case 5: return new NotImplementedException();
	case 6: return new InvalidCastException();
	case 7: return new InvalidOperationException();
	case 8: return new FormatException();
	case 9: return new OverflowException();
	case 10: return new ThrowMinMaxException();
	case 11: return new ArithmeticException();
	default: return new DivideByZeroException();
	}
}
std::string msgOf(Exception* e) { return e->get_Message() ? narrow(ws(e->get_Message())) : ""; }
// A text of n characters that takes no memory of its own: the end of a static one.
enum { LongMax = 6000 };
wchar_t longText[LongMax + 1];
int longLen(const Op& o) { return o.a % 3 ? (o.a * 7) % LongMax : o.a; }
String* longLit(const Op& o) { return new String(longText + (LongMax - longLen(o))); }
String* lit(const char* s) {
	Char buf[128];
	int n = 0;
	for (; s[n]; ++n)
		buf[n] = (Char) s[n];
	return new String(buf, 0, n);
}
// Classes of the program's own.
struct OwnError : InvalidOperationException {
	int code = 0;
};
struct OwnFailure : Exception {
	int code;
	OwnFailure(String* m, int code) : Exception(m), code(code) {}
};
struct OwnOverflow : OverflowException {
};
struct OwnArgument : ArgumentException {
	OwnArgument(String* m) : ArgumentException(m) {}
};
struct OwnArithmetic : ArithmeticException {
	OwnArithmetic(String* m) : ArithmeticException(m) {}
};
struct OwnThing : Object {
	int a, b;
	OwnThing(int a, int b) : a(a), b(b) {}
	String* ToString() override {
		switch (b & 7) {
		case 0: throw new OwnError();
		case 1:
			switch (a / 5 % 3) {
			case 0: throw new OwnFailure(lit(kLit[a % 5]), b);
			case 1: throw new OwnArgument(lit(kLit[a % 5]));
			default: throw new OwnArithmetic(lit(kLit[a % 5]));
			}
		case 2: throw new OwnOverflow();
		default: return String::Concat(new Int32Value(a), new String(L"/"), new Int32Value(b & 7));
		}
	}
};
void ownWork(int a, int b, String*& result) {
	OwnThing* t = new OwnThing(a, b);
	switch (a % 4) {
	case 0: result = String::Concat(t, new String(L"+"), new Int32Value(a)); return;
	case 1: {
		Array* v = new Array(ObjectType, 3);
		v->SetValue((Object*) new BooleanValue(true), 0);
		v->SetValue((Object*) t, 1);
		result = String::Join(L',', v);
		return;
	}
	case 2: {
		StringBuilder s;
		s.Append((Object*) t)->Insert(0, (Object*) t);
		result = s.ToString();
		return;
	}
	default: result = t->ToString();
	}
}
std::string ownText(const Op& o, const std::string* lib, bool& ends) {
	ends = (o.b & 7) < 3;
	switch (o.b & 7) {
	case 0: return lib[7] + "\n";
	case 1: return std::string(kLit[o.a % 5]) + "\n";
	case 2: return lib[9] + "\n";
	}
	std::string t = std::to_string(o.a) + "/" + std::to_string(o.b & 7);
	switch (o.a % 4) {
	case 0: return t + "+" + std::to_string(o.a) + "\n";
	case 1: return "True," + t + ",\n";
	case 2: return t + t + "\n";
	default: return t + "\n";
	}
}
struct Program : DotnetLibrarySupport::TranslatorSupport {
	Array* held = nullptr;         // platform array kept across operations
	Array* twin = nullptr;         // an array of the program itself, of the same shape
	Array* platform() {
		DotnetLibrarySupport::DataAccess* d = new DotnetLibrarySupport::DataAccess();
		return d->get_ArrayData();
	}
	void one(Op& o) {
		switch (o.kind) {
		case KSend:
			Send(lit(kLit[o.a % 5]));
			break;
		case KSendElem: {
			Int32Value* v = new Int32Value(*(Int32*) platform()->Address(o.a & 3));
			Send(v->ToString());
			break;
		}
		case KSendDouble: {
			DotnetLibrarySupport::DataAccess d;
			Send((new DoubleValue(d.get_DoubleData()))->ToString());
			break;
		}
		case KStore:
			*(Int32*) platform()->Address(o.a & 3) = o.b;
			break;
		case KStoreViaSetValue:
			platform()->SetValue((Object*) new Int32Value(o.b), (Int32) (o.a & 3));
			break;
		case KThrowLib:
			throw libException(o.a);
		case KThrowCustom:
			throw new Exception(lit(kLit[o.a % 5]), new Exception(lit("inner")));
		case KThrowBare:
			throw new Exception();
		case KThrowCall:
			badCall(o.a, o.b);
			Send(lit("the call was not rejected"));
			break;
		case KCatchInside:
			try {
				badCall(o.a, o.b);
				Send(lit("the call was not rejected"));
			}
			catch (Exception* e) {
				Send(e->get_Message());
			}
			break;
		case KRethrow:
			try {
				badCall(o.a, o.b);
			}
			catch (Exception* e) {
				throw;
			}
			break;
		case KBuild: {
			StringBuilder* b = new StringBuilder();
			int n = o.a & 63;
			for (int i = 0; i < n; ++i)
				b->Append((Char) (L'a' + (i + o.b % 7 + 7) % 26), 1);
			Send(b->ToString());
			break;
		}
		case KJunk: {
			Array* a = new Array(ByteType, o.a & 1023);
			if (a->get_Length())
				memset(a->Address(0), 0xEE, (size_t) a->get_Length());
			break;
		}
		case KDeleteWrapper: {
			Array* w = platform();
			*(Int32*) w->Address(o.a & 3) += 1;
			delete w;
			break;
		}
		case KSendLong:
			Send(longLit(o));
			break;
		case KThrowLong:
			throw new Exception(longLit(o));
		case KOwnText:
		case KOwnThrow: {
			String* r = nullptr;
			ownWork(o.a, o.kind == KOwnThrow ? (o.b & ~7) | (o.b >> 3 & 7) % 3 : (o.b & ~7) | (3 + (o.b & 3)), r);
			Send(r);
			break;
		}
		case KOwnCatch:
			try {
				String* r = nullptr;
				ownWork(o.a, o.b, r);
				Send(r);
			}
			catch (OwnFailure* e) {
				Send(e->code == o.b ? e->get_Message() : lit("the error changed"));
			}
			catch (InvalidOperationException* e) {
				Send(dynamic_cast<OwnError*>(e) ? e->get_Message() : lit("the error changed"));
			}
			catch (OwnArgument* e) {
				Send(e->get_Message());
			}
			catch (ArithmeticException* e) {
				Send(dynamic_cast<OwnOverflow*>(e) || dynamic_cast<OwnArithmetic*>(e) ? e->get_Message() : lit("the error changed"));
			}
			break;
		case KHold:
			held = platform();
			break;
		case KSendHeld:
			Send(held ? (new Int32Value(*(Int32*) held->Address(o.a & 3)))->ToString() : lit("none"));
			break;
		case KStoreHeld:
			if (held)
				held->SetValue((Object*) new Int32Value(o.b), (Int32) (o.a & 3));
			break;
		case KTwin:
			twin = new Array(Int32Type, 4);
			for (int i = 0; i < 4; ++i)
				*(Int32*) twin->Address(i) = (Int32) ((uint32_t) o.b + (uint32_t) i);
			break;
		case KSendTwin: {
			if (!twin) {
				Send(lit("none"));
				break;
			}
			Int64 s = 0;
			for (Int32 i = 0; i < twin->get_Length(); ++i)
				s += *(Int32*) twin->Address(i);
			Send((new Int64Value(s))->ToString());
			break;
		}
		case KBoxText:
			Send((new Int64Value((Int64) o.a * 1000003 + o.b))->ToString());
			break;
		case KSum: {
			Array* w = platform();
			Int64 s = 0;
			for (Int32 i = 0; i < w->get_Length(); ++i)
				s += ((Int32Value*) w->GetValue(i))->get_AsInt32();
			Send((new Int64Value(s))->ToString());
			break;
		}
		}
	}
	virtual void RunCode() {
		Prog& p = plan.prog[curProg];
		for (int i = 0; i < p.n; ++i)
			one(p.op[i]);
		if (p.probe) {
			long k = 0;
			while (k < 100000 && my_operator_new_replacement(8))
				++k;
			remaining[curProg][1] = k;
		}
	}
};
// What the same calls give in ordinary heap memory, found in a process of its own: nothing may be prepared
// (a lazily made object, say) before the first run.
struct Reference {
	Int32* storage;
	std::string call[8], lib[13], dbl;
};
const Reference& reference(Case& c) {
	static Reference r;
	static bool have = false;
	if (have)
		return r;
	std::string all = runGuest(c, "the calls in ordinary memory", [](Guest& g) {
		DotnetLibrarySupport::DataAccess access;
		Array* first = access.get_ArrayData();
		if (!first || first->get_Length() < 4)
			g.fail("platform array is missing");
		g.put("%llx\n", (unsigned long long) (uintptr_t) first->Address(0));
		for (int k = 0; k < 8; ++k)
			try {
				badCall(k, 0);
				g.fail("heap mode: rejected call %d completed", k);
			}
			catch (Exception* e) {
				g.put("%s\n", msgOf(e).c_str());
			}
		for (int k = 0; k < 13; ++k)
			g.put("%s\n", msgOf(libException(k)).c_str());
		g.put("%s\n", narrow(ws((new DoubleValue(access.get_DoubleData()))->ToString())).c_str());
	});
	size_t at = 0;
	auto line = [&] {
		size_t e = all.find('\n', at);
		std::string t = all.substr(at, e - at);
		at = e + 1;
		return t;
	};
	r.storage = (Int32*) (uintptr_t) strtoull(line().c_str(), nullptr, 16);
	for (auto& x : r.call)
		x = line();
	for (auto& x : r.lib)
		x = line();
	r.dbl = line() + "\n";
	have = true;
	return r;
}
// The model: what the program writes and does to the platform data.
struct Own {
	bool held = false, twin = false;
	Int64 sum = 0;
};
bool stepModel(const Op& o, Int32* data, std::string& out, const Reference& ref, Own& own) {
	switch (o.kind) {
	case KSend:
		out += std::string(kLit[o.a % 5]) + "\n";
		return true;
	case KSendElem:
		out += std::to_string(data[o.a & 3]) + "\n";
		return true;
	case KSendDouble:
		out += "\x01";
		return true;
	case KStore:
	case KStoreViaSetValue:
		data[o.a & 3] = o.b;
		return true;
	case KThrowLib:
		out += ref.lib[o.a % 13] + "\n";
		return false;
	case KThrowCustom:
		out += std::string(kLit[o.a % 5]) + "\n";
		return false;
	case KThrowBare:
		out += "\x02";
		return false;
	case KThrowCall:
	case KRethrow:
		out += ref.call[o.a % 8] + "\n";
		return false;
	case KCatchInside:
		out += ref.call[o.a % 8] + "\n";
		return true;
	case KBuild: {
		int n = o.a & 63;
		for (int i = 0; i < n; ++i)
			out += (char) ('a' + (i + o.b % 7 + 7) % 26);
		out += "\n";
		return true;
	}
	case KDeleteWrapper:
		data[o.a & 3] = (Int32) ((uint32_t) data[o.a & 3] + 1);
		return true;
	case KSendLong:
	case KThrowLong:
		out += narrow(longText + (LongMax - longLen(o))) + "\n";
		return o.kind == KSendLong;
	case KOwnText:
	case KOwnThrow:
	case KOwnCatch: {
		Op q = o;
		if (o.kind != KOwnCatch)
			q.b = o.kind == KOwnThrow ? (o.b & ~7) | (o.b >> 3 & 7) % 3 : (o.b & ~7) | (3 + (o.b & 3));
		bool ends;
		out += ownText(q, ref.lib, ends);
		return o.kind == KOwnCatch || !ends;
	}
	case KHold:
		own.held = true;
		return true;
	case KSendHeld:
		out += (own.held ? std::to_string(data[o.a & 3]) : "none") + "\n";
		return true;
	case KStoreHeld:
		if (own.held)
			data[o.a & 3] = o.b;
		return true;
	case KTwin:
		own.twin = true;
		own.sum = 0;
		for (int i = 0; i < 4; ++i)
			own.sum += (Int32) ((uint32_t) o.b + (uint32_t) i);
		return true;
	case KSendTwin:
		out += (own.twin ? std::to_string(own.sum) : "none") + "\n";
		return true;
	case KBoxText:
		out += std::to_string((Int64) o.a * 1000003 + o.b) + "\n";
		return true;
	case KSum: {
		Int64 s = 0;
		for (int i = 0; i < 4; ++i)
			s += data[i];
		out += std::to_string(s) + "\n";
		return true;
	}
	default:
		return true;
	}
}
Op genOp(Case& c) {
	Op o;
	o.kind = (uint8_t) c.weighted({4, 3, 1, 3, 2, 1, 1, 1, 2, 2, 2, 1, 1, 1, 2, 1, 2, 2, 1, 2, 2, 1, 1, 2, 1, 2});
	o.a = (int) c.draw(1024);
	o.b = (int) c.edge(INT32_MIN, INT32_MAX);
	return o;
}
const char* kindName[] = {"Send", "SendElem", "SendDouble", "Store", "SetValue", "ThrowLib", "ThrowCustom", "ThrowCall", "CatchInside", "Build", "Junk", "DeleteWrapper", "BoxText", "Rethrow", "Sum", "ThrowBare", "Hold", "SendHeld", "StoreHeld", "Twin", "SendTwin", "SendLong", "ThrowLong", "OwnText", "OwnThrow", "OwnCatch"};
int outFd;
const char* expectedText;
size_t expectedLen;
Int32 expectedData[4];
bool throwsInStep[24];
}

static void runsBody(Case& c, bool many) {
	memset(&plan, 0, sizeof plan);
	static Int32* storage = nullptr;
	for (int i = 0; i < LongMax; ++i)
		longText[i] = (wchar_t) (L'!' + i % 90);
	const Reference& ref = reference(c);
	storage = ref.storage;
	plan.nprog = 1 + (int) c.draw(4);
	for (int p = 0; p < plan.nprog; ++p) {
		Prog& g = plan.prog[p];
		g.n = (int) c.size(14);
		for (int i = 0; i < g.n; ++i) {
			g.op[i] = genOp(c);
			c.note("prog %d: %s %d %d", p, kindName[g.op[i].kind], g.op[i].a, g.op[i].b);
		}
		g.probe = c.chance(1, 2);
		// texts of platform values differ in length between runs, and so may the memory they use
		for (int i = 0; i < g.n; ++i)
			if (g.op[i].kind == KSendElem || g.op[i].kind == KSum || g.op[i].kind == KSendDouble || g.op[i].kind == KSendHeld)
				g.probe = false;
		g.stackObject = c.coin();
	}
	plan.nstep = 1 + (int) c.size(many ? 5 : 20);
	size_t budget = 5000000;
	std::string want;
	Int32 data[4];
	memcpy(data, storage, sizeof data);
	int runs = 0, thrown = 0, after = 0, dirtied = 0, readLater = 0;
	for (int i = 0; i < plan.nstep; ++i) {
		Step& s = plan.step[i];
		s.platform = c.chance(1, 5);
		s.prog = (int) c.draw((uint64_t) plan.nprog);
		s.a = (int) c.draw(4);
		s.b = (int) c.edge(INT32_MIN, INT32_MAX);
		throwsInStep[i] = false;
		if (s.platform) {
			c.note("platform sets element %d to %d", s.a, s.b);
			data[s.a] = s.b;
			++dirtied;
			continue;
		}
		Prog& g = plan.prog[s.prog];
		s.times = !many ? 1 : c.chance(1, 10) ? 1 + (int) c.draw(70000) : 1 + (int) c.draw(400);
		c.note("run %d, %d times", s.prog, s.times);
		size_t from = want.size();
		for (int time = 0; time < s.times; ++time) {
		if (time == 1) {      // a bound on the work
			size_t each = want.size() - from + 20 * (size_t) g.n + (g.probe ? 3000 : 50);
			if ((size_t) s.times * each > budget)
				s.times = 1 + (int) (budget / each);
			budget -= std::min(budget, (size_t) s.times * each);
			if (s.times == 1)
				break;
		}
		++runs;
		if (thrown)
			++after;
		Own own;
		for (int k = 0; k < g.n; ++k) {
			if (dirtied && (g.op[k].kind == KSendElem || g.op[k].kind == KSum || (g.op[k].kind == KSendHeld && own.held)))
				++readLater;
			if (g.op[k].kind == KStore || g.op[k].kind == KStoreViaSetValue || (g.op[k].kind == KStoreHeld && own.held))
				++dirtied;
			if (!stepModel(g.op[k], data, want, ref, own)) {
				++thrown;
				throwsInStep[i] = true;
				break;
			}
		}
		}
		want += "--" + std::to_string(i) + "\n";
	}
	memcpy(expectedData, data, sizeof data);
	if (runs >= 3 && (after || readLater))
		c.nontrivial();
	if (runs > 250)
		c.label("over 250 runs");
	if (after)
		c.label("run after an exception");
	if (readLater)
		c.label("platform data read later");
	size_t at;
	while ((at = want.find('\x01')) != std::string::npos)
		want.replace(at, 1, ref.dbl);
	outFd = memfd_create("guest-stdout", 0);
	runGuest(c, "history of runs", [](Guest& g) {
		dup2(outFd, 1);
		for (int i = 0; i < 5; ++i)
			remaining[i][0] = -1;
		for (int i = 0; i < plan.nstep; ++i) {
			Step& s = plan.step[i];
			g.at("step %d", i);
			if (s.platform) {
				storage[s.a] = s.b;
				continue;
			}
			curProg = s.prog;
			for (int time = 0; time < s.times; ++time) {
			remaining[curProg][1] = -1;
			static char place[8][sizeof(Program)];
			Program* p = new (place[i & 7]) Program();
			try {
				p->Run();
			}
			catch (Exception*) {
				g.fail("step %d: an exception escaped from Run", i);
			}
			if (plan.prog[curProg].probe && !throwsInStep[i]) {
				if (remaining[curProg][1] < 0)
					g.fail("step %d: program %d did not run to its end", i, curProg);
				if (remaining[curProg][0] < 0)
					remaining[curProg][0] = remaining[curProg][1];
				else if (remaining[curProg][0] != remaining[curProg][1])
					g.fail("step %d: program %d leaves room for %ld eight-byte blocks, on its first run it left %ld", i, curProg, remaining[curProg][1], remaining[curProg][0]);
			}
			}
			fflush(stdout);
			dprintf(1, "--%d\n", i);
		}
		fflush(stdout);
		for (int k = 0; k < 4; ++k)
			if (storage[k] != expectedData[k])
				g.fail("platform element %d is %d after all runs, expected %d", k, storage[k], expectedData[k]);
	});
	std::string got;
	char buf[65536];
	ssize_t k;
	off_t off = 0;
	while ((k = pread(outFd, buf, sizeof buf, off)) > 0) {
		got.append(buf, (size_t) k);
		off += k;
	}
	close(outFd);
	// \x02 stands for one line of any text (an exception that has no message of its own)
	size_t i = 0, j = 0;
	std::string where;
	for (; j < want.size(); ++j) {
		if (want[j] == '\x02') {
			size_t e = got.find('\n', i);
			if (e == std::string::npos)
				break;
			i = e + 1;
			continue;
		}
		if (i >= got.size() || got[i] != want[j])
			break;
		++i;
	}
	if (j < want.size() || i != got.size())
		c.fail("output differs at byte %zu: got \"...%s\", expected \"...%s\"", i, got.substr(i > 30 ? i - 30 : 0, 80).c_str(), want.substr(j > 30 ? j - 30 : 0, 80).c_str());
}
PBT_PROP(runs, 300) { runsBody(c, false); }
PBT_PROP(many_runs, 4) { runsBody(c, true); }
