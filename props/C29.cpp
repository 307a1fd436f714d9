// C29  No sequence of library calls can corrupt memory or crash
#include "world_ops.h"
PBT_MAIN("C29", "a history of at least 6 calls that had a live target, of which at least one succeeded in changing an object and at least one was rejected with an exception")

namespace {
struct Snap {
	uint64_t s[NS], b[NB], a[NA], o[NO], e[NE];
};
void snap(World& w, Snap& p) {
	for (int i = 0; i < NS; ++i) p.s[i] = w.digestS(w.S[i]);
	for (int i = 0; i < NB; ++i) p.b[i] = w.digestB(w.B[i]);
	for (int i = 0; i < NA; ++i) p.a[i] = w.digestA(w.A[i], true);
	for (int i = 0; i < NO; ++i) p.o[i] = w.digestO(w.O[i]);
	for (int i = 0; i < NE; ++i) p.e[i] = w.digestE(w.E[i]);
}
// Shared constants of the library that no call may change.
uint64_t constants() {
	World w;
	w.h = 5;
	w.nt = 0;
	w.rs(String::Empty);
	w.rs(BooleanValue::TrueString);
	w.rs(BooleanValue::FalseString);
	w.r(Int32Value::MaxValue);
	w.r(Int32Value::MinValue);
	w.r(CharValue::MaxValue);
	w.rd(DoubleValue::MaxValue);
	w.rd(DoubleValue::Epsilon);
	w.r((int64_t) DateTimeValue::MaxValue.value);
	w.r((int64_t) DateTimeValue::MinValue.value);
	w.r(TimeSpanValue::MaxValue.value);
	w.r(TimeSpanValue::Zero.value);
	w.r(BitConverter::IsLittleEndian);
	for (int i = 0; i < 18; ++i)
		w.r(DataTypeSize[i]);
	return w.h;
}
void runHistory(Case& c, int maxOps) {
	static WOp plan[400];
	int n = genPlan(c, plan, maxOps);
	for (int i = 0; i < n; ++i)
		noteOp(c, i, plan[i]);
	World* w = new World();
	w->reset();
	static const uint64_t k0 = constants();
	Snap before, after;
	snap(*w, before);
	int ran = 0, changed = 0, rejected = 0;
	for (int i = 0; i < n; ++i) {
		const WOp& o = plan[i];
		worldRun(*w, worldOps[o.code], o);
		const char* nm = worldOps[o.code].name;
		char text[72];
		memcpy(text, w->txt, sizeof text);
		if (w->ran)
			++ran;
		if (strchr(text, '!'))
			++rejected;
		if (w->mayB | w->mayA | w->mayE)
			++changed;
		if (w->bad)
			c.fail("call %d %s: %s (result%s)", i, nm, w->bad, text);
		uint32_t ms = w->mayS, mb = w->mayB, ma = w->mayA, mo = w->mayO, me = w->mayE;
		snap(*w, after);
		if (w->bad)
			c.fail("after call %d %s an object is malformed: %s", i, nm, w->bad);
		for (int k = 0; k < NS; ++k)
			if (before.s[k] != after.s[k] && !(ms >> k & 1))
				c.fail("call %d %s changed string %d, which is not its target (result%s)", i, nm, k, text);
		for (int k = 0; k < NB; ++k)
			if (before.b[k] != after.b[k] && !(mb >> k & 1))
				c.fail("call %d %s changed builder %d, which is not its target (result%s)", i, nm, k, text);
		for (int k = 0; k < NA; ++k)
			if (before.a[k] != after.a[k] && !(ma >> k & 1))
				c.fail("call %d %s changed array %d, which is not its target (result%s)", i, nm, k, text);
		for (int k = 0; k < NO; ++k)
			if (before.o[k] != after.o[k] && !(mo >> k & 1))
				c.fail("call %d %s changed boxed value %d, which is not its target (result%s)", i, nm, k, text);
		for (int k = 0; k < NE; ++k)
			if (before.e[k] != after.e[k] && !(me >> k & 1))
				c.fail("call %d %s changed enumerator %d, which is not its target (result%s)", i, nm, k, text);
		if (constants() != k0)
			c.fail("call %d %s changed a shared constant of the library", i, nm);
		before = after;
	}
	if (ran >= 6 && changed && rejected)
		c.nontrivial();
	if (rejected)
		c.label("with rejected calls");
	if (changed > 3)
		c.label("4+ changing calls");
}
}

PBT_PROP(histories, 2500) { runHistory(c, 40); }
PBT_PROP(long_histories, 300) { runHistory(c, 300); }
