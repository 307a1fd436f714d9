// C30  Library code behaves identically in recycled memory
#include "world_ops.h"
#include "guest.h"
#include <PlatformSupport.h>
PBT_MAIN("C30", "two programs of together at least 8 calls with a live target that fit the region, run there at least three times after heap mode, with at least one rejected call or one changed object")

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace {
enum { MaxOps = 120, Budget = 26000 };
WOp planP[2][MaxOps];
int planN[2];
World world;
struct Trace {
	int n;
	uint64_t h[MaxOps];
	char t[MaxOps][72];
	uint64_t finish;
	int ran, special;
	size_t bytes;
};
struct Shared {
	Trace heap[2];
};
Shared* sh() {
	static Shared* s = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return s;
}
size_t counted;
void onMalloc(const volatile void*, size_t n) { counted += (n + 7) & ~(size_t) 7; }
void onFree(const volatile void*) {}

// Runs one plan from an empty world; fills out, or compares with ref when given.
void runPlan(Guest& g, int p, const char* when, Trace* out, const Trace* ref) {
	World& w = world;
	w.reset();
	for (int i = 0; i < planN[p]; ++i) {
		const WOp& o = planP[p][i];
		g.at("%s, program %c call %d %s", when, 'P' + p, i, worldOps[o.code].name);
		worldRun(w, worldOps[o.code], o);
		if (w.bad)
			g.fail("%s: program %c call %d %s: %s", when, 'P' + p, i, worldOps[o.code].name, w.bad);
		if (out) {
			out->h[i] = w.h;
			memcpy(out->t[i], w.txt, sizeof w.txt);
			out->ran += w.ran;
			if (strchr(w.txt, '!') || w.mayB || w.mayA)
				out->special++;
		}
		else if (ref->h[i] != w.h || strcmp(ref->t[i], w.txt))
			g.fail("%s: program %c call %d %s gave%s, in heap memory it gave%s", when, 'P' + p, i, worldOps[o.code].name, w.txt, ref->t[i]);
	}
	g.at("%s, program %c final state", when, 'P' + p);
	uint64_t f = 1;
	try {
		for (int k = 0; k < NS; ++k) f = f * 31 + w.digestS(w.S[k]);
		for (int k = 0; k < NB; ++k) f = f * 31 + w.digestB(w.B[k]);
		for (int k = 0; k < NA; ++k) f = f * 31 + w.digestA(w.A[k], false);
		for (int k = 0; k < NE; ++k) f = f * 31 + w.digestE(w.E[k]);
	}
	catch (Exception* e) {
		g.fail("%s: program %c: reading its objects back ended in %s", when, 'P' + p, exName(classify(e)));
	}
	if (out)
		out->finish = f;
	else if (ref->finish != f)
		g.fail("%s: program %c left its objects in another state than in heap memory", when, 'P' + p);
}
void dirty(unsigned char v) {
	PlatformSetup();
	for (;;) {
		void* volatile q = operator new(8);
		if (!q)
			break;
		memset(q, v, 8);
	}
}
void runBoth(Case& c, int maxOps, int rounds, int repeat = 1) {
	for (int p = 0; p < 2; ++p) {
		planN[p] = genPlan(c, planP[p], maxOps);
		c.note("program %c", 'P' + p);
		for (int i = 0; i < planN[p]; ++i)
			noteOp(c, i, planP[p][i]);
	}
	uint8_t order[12];
	int nr = 2 + (int) c.draw((uint64_t) rounds);
	char text[100];
	int nt = 0;
	for (int i = 0; i < nr; ++i) {
		order[i] = (uint8_t) c.draw(6);      // low bit: which program; the rest: how the region was left
		nt += snprintf(text + nt, sizeof text - (size_t) nt, " %c%s", 'P' + (order[i] & 1), order[i] / 2 == 1 ? "(region filled with CC)" : "");
		if (nt > 90)
			nt = 90;
	}
	if (repeat > 1)
		repeat = c.chance(1, 8) ? 1 + (int) c.draw((uint64_t) repeat) : 1 + (int) c.draw(300);
	c.note("runs in the region:%s, %d times", text, repeat);
	Shared* s = sh();
	memset(s, 0, sizeof *s);
	runGuest(c, "heap mode", [&](Guest& g) {
		__sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
		for (int p = 0; p < 2; ++p) {
			counted = 0;
			runPlan(g, p, "heap mode", &s->heap[p], nullptr);
			s->heap[p].bytes = counted;
		}
	});
	if (s->heap[0].bytes > Budget || s->heap[1].bytes > Budget) {
		c.label("too big for the region");
		return;
	}
	runGuest(c, "region mode", [&](Guest& g) {
		for (int k = 0; k < nr * repeat; ++k) {
			int i = k % nr;
			if (order[i] / 2 == 1)
				dirty(0xCC);
			PlatformSetup();
			char when[60];
			snprintf(when, sizeof when, "run %d in the region", k + 1);
			runPlan(g, order[i] & 1, when, nullptr, &s->heap[order[i] & 1]);
		}
	});
	if (s->heap[0].ran + s->heap[1].ran >= 8 && nr >= 3 && s->heap[0].special + s->heap[1].special)
		c.nontrivial();
	if (s->heap[0].bytes > 5000)
		c.label("over 5000 bytes");
}
}

PBT_PROP(programs, 120) { runBoth(c, 40, 4); }
PBT_PROP(long_programs, 45) { runBoth(c, 120, 8); }
PBT_PROP(many_runs, 2) { runBoth(c, 15, 2, 3000); }
