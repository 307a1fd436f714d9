// C25  The recycling allocator hands out disjoint, aligned, zeroed memory
#include "guest.h"
#include "lib.h"
#include <csignal>
PBT_MAIN("C25", "a history with at least one reset after use, whose allocations filled the region to refusal or wrote and re-read at least 5 live blocks")

namespace {
enum OpKind { OAlloc, OFree, OReset, OFill, OVerify };
struct AOp {
	uint8_t kind, how, pat;
	uint64_t size;
	uint32_t target;
};
enum { MAXOPS = 600, MAXBLK = 9000 };
struct Plan {
	int nheap, n;
	AOp op[MAXOPS];
};
Plan plan;
struct Blk {
	unsigned char* p;
	uint64_t n;
	uint8_t pat;       // 0: still zero
};
Blk blk[MAXBLK];
int nblk;

uint64_t genRegionSize(Case& c) {
	switch (c.weighted({10, 6, 3, 3, 2, 1})) {
	case 0:
		return 1 + c.draw(64);
	case 1:
		return 1 + c.draw(600);
	case 2:
		return 1 + c.draw(9000);
	case 3:
		return 32700 + c.draw(100);
	case 4: {
		static const uint64_t huge[] = {32767, 32768, 65535, 65536, 1ull << 31, (1ull << 31) - 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 8, (1ull << 32) - 8, (1ull << 32) - 7, (1ull << 33) + 16,
			1ull << 63, (1ull << 63) - 1, ~0ull, ~0ull - 1, ~0ull - 6, ~0ull - 7, ~0ull - 8, ~0ull - 32767};
		return huge[c.draw(sizeof huge / sizeof huge[0])];
	}
	default:
		return 0;
	}
}
unsigned char* allocate(int how, uint64_t size) {
	switch (how % 3) {
	case 0:
		return (unsigned char*) my_operator_new_replacement((size_t) size);
	case 1:
		return (unsigned char*) ::operator new((size_t) size);
	default:
		return (unsigned char*) ::operator new[]((size_t) size);
	}
}
void release(int how, void* p) {
	switch (how % 3) {
	case 0:
		my_operator_delete_replacement(p);
		break;
	case 1:
		::operator delete(p);
		break;
	default:
		::operator delete[](p);
	}
}
void checkContent(Guest& g, int i, const char* when) {
	for (uint64_t k = 0; k < blk[i].n; ++k)
		if (blk[i].p[k] != blk[i].pat)
			g.fail("%s: byte %llu of live block %d (size %llu) is 0x%02x, expected 0x%02x", when, (unsigned long long) k, i, (unsigned long long) blk[i].n, blk[i].p[k], blk[i].pat);
}
// A freshly returned block: aligned, zero, disjoint from every live one.
void fresh(Guest& g, unsigned char* p, uint64_t n, const char* where) {
	if ((uintptr_t) p % 8)
		g.fail("%s: block of %llu bytes at %p is not aligned for a double or 64-bit value", where, (unsigned long long) n, p);
	for (uint64_t k = 0; k < n; ++k)
		if (p[k])
			g.fail("%s: byte %llu of a new block of %llu bytes is 0x%02x, not zero", where, (unsigned long long) k, (unsigned long long) n, p[k]);
	for (int i = 0; i < nblk; ++i)
		if (p < blk[i].p + blk[i].n && blk[i].p < p + n)
			g.fail("%s: new block %p+%llu overlaps live block %p+%llu", where, p, (unsigned long long) n, blk[i].p, (unsigned long long) blk[i].n);
}
void runPlan(Guest& g) {
	// ordinary heap until the first set-up
	nblk = 0;
	for (int k = 0; k < plan.nheap; ++k) {
		AOp& o = plan.op[k];
		g.at("heap-mode step %d", k);
		if (o.kind == OFree) {
			if (nblk) {
				int t = (int) (o.target % (uint32_t) nblk);
				checkContent(g, t, "heap mode, before release");
				release(o.how, blk[t].p);
				blk[t] = blk[--nblk];
			}
			continue;
		}
		unsigned char* p = allocate(o.how, o.size);
		if (!p)
			g.fail("heap mode: allocation of %llu bytes returned null", (unsigned long long) o.size);
		fresh(g, p, o.size, "heap mode");
		memset(p, o.pat, o.size);
		blk[nblk++] = Blk{p, o.size, o.pat};
	}
	int heapBlocks = nblk;
	release(0, nullptr);
	// first set-up: find the region's extent and granularity with one-byte blocks
	g.at("first set-up");
	PlatformSetup();
	uint64_t total = 0, gran = 0;
	unsigned char *lo = nullptr, *prev = nullptr;
	for (;;) {
		unsigned char* p = allocate((int) total, 1);
		if (!p)
			break;
		if (!lo)
			lo = p;
		else {
			if (p <= prev)
				g.fail("one-byte blocks of one run are not disjoint: %p after %p", p, prev);
			if (!gran)
				gran = (uint64_t) (p - prev);
			else if ((uint64_t) (p - prev) != gran)
				g.fail("one-byte blocks are spaced %llu and %llu bytes apart", (unsigned long long) gran, (unsigned long long) (p - prev));
		}
		if ((uintptr_t) p % 8 || *p)
			g.fail("one-byte block %p is %s", p, *p ? "not zero" : "not aligned");
		*p = 0xA5;
		prev = p;
		if (++total > 1000000)
			g.fail("region mode never runs out: %llu one-byte blocks", (unsigned long long) total);
	}
	if (total < 2 || gran < 8)
		g.fail("region of only %llu one-byte blocks %llu apart", (unsigned long long) total, (unsigned long long) gran);
	uint64_t cap = total * gran;
	if (cap > 32767 || cap + gran <= 32767)
		g.fail("region of %llu usable bytes, expected 32767 rounded down to the block granularity %llu", (unsigned long long) cap, (unsigned long long) gran);
	for (int i = 0; i < heapBlocks; ++i)
		checkContent(g, i, "heap block after the first set-up");
	for (int i = 0; i < heapBlocks; i += 2)
		release(i, blk[i].p);     // harmless in region mode
	bool allSame = true;
	for (int i = 1; i < heapBlocks; i += 2)
		checkContent(g, i, "heap block after releases in region mode");
	(void) allSame;
	PlatformSetup();
	nblk = 0;
	uint64_t used = 0;
	for (int k = plan.nheap; k < plan.n; ++k) {
		AOp& o = plan.op[k];
		switch (o.kind) {
		case OReset: {
			g.at("step %d: reset", k);
			for (int i = 0; i < nblk; ++i)
				checkContent(g, i, "before reset");
			PlatformSetup();
			nblk = 0;
			used = 0;
			break;
		}
		case OVerify:
			for (int i = 0; i < nblk; ++i)
				checkContent(g, i, "verification");
			break;
		case OFree:
			g.at("step %d: release", k);
			if (o.target % 5 == 0)
				release(o.how, nullptr);
			else if (nblk) {
				int t = (int) (o.target % (uint32_t) nblk);
				release(o.how, blk[t].p);
				checkContent(g, t, "after its release (the block stays until the next reset)");
				if (o.target % 7 == 0)
					release(o.how + 1, blk[t].p);
			}
			break;
		case OFill: {
			// use the region up with blocks of one size
			for (;;) {
				uint64_t need = (o.size + gran - 1) / gran * gran;
				g.at("step %d: filling with blocks of %llu (used %llu)", k, (unsigned long long) o.size, (unsigned long long) used);
				unsigned char* p = allocate(o.how, o.size);
				bool want = need <= cap - used;
				if (want != (p != nullptr))
					g.fail("step %d: with %llu of %llu bytes used, allocating %llu returned %p", k, (unsigned long long) used, (unsigned long long) cap, (unsigned long long) o.size, p);
				if (!p || nblk >= MAXBLK - 1)
					break;
				if (p < lo || p + o.size > lo + 32767)
					g.fail("step %d: block %p+%llu lies outside the region %p+32767", k, p, (unsigned long long) o.size, lo);
				if (nblk < 40)
					fresh(g, p, o.size, "region mode");
				else {
					// successive blocks of one fill: cheap neighbour check, full check at the end
					if ((uintptr_t) p % 8)
						g.fail("step %d: block %p is not aligned", k, p);
					for (uint64_t j = 0; j < o.size; ++j)
						if (p[j])
							g.fail("step %d: byte %llu of a new block is 0x%02x, not zero", k, (unsigned long long) j, p[j]);
				}
				uint8_t pat = (uint8_t) (o.pat + nblk);
				memset(p, pat, o.size);
				blk[nblk++] = Blk{p, o.size, pat};
				used += need;
			}
			for (int i = 0; i < nblk; ++i)
				checkContent(g, i, "after filling the region");
			break;
		}
		default: {
			g.at("step %d: allocating %llu (used %llu of %llu)", k, (unsigned long long) o.size, (unsigned long long) used, (unsigned long long) cap);
			unsigned char* p = allocate(o.how, o.size);
			if (o.size == 0)
				break;
			bool want = o.size <= cap && (o.size + gran - 1) / gran * gran <= cap - used;
			if (want != (p != nullptr))
				g.fail("step %d: with %llu of %llu bytes used, allocating %llu returned %p", k, (unsigned long long) used, (unsigned long long) cap, (unsigned long long) o.size, p);
			if (!p)
				break;
			if (p < lo || p + o.size > lo + 32767)
				g.fail("step %d: block %p+%llu lies outside the region %p+32767", k, p, (unsigned long long) o.size, lo);
			fresh(g, p, o.size, "region mode");
			if (nblk < MAXBLK - 1) {
				memset(p, o.pat, o.size);
				blk[nblk++] = Blk{p, o.size, o.pat};
			}
			used += (o.size + gran - 1) / gran * gran;
		}
		}
	}
	for (int i = 0; i < nblk; ++i)
		checkContent(g, i, "at the end");
}
}

PBT_PROP(histories, 300) {
	memset(&plan, 0, sizeof plan);
	int n = 0;
	size_t nh = c.size(12);
	for (size_t i = 0; i < nh; ++i) {
		AOp& o = plan.op[n++];
		o.kind = c.chance(1, 4) ? OFree : OAlloc;
		o.how = (uint8_t) c.draw(3);
		o.pat = (uint8_t) c.draw(256);
		o.target = (uint32_t) c.draw(1000);
		o.size = c.chance(1, 6) ? 1 + c.draw(200000) : c.size(300);
		c.note("heap %s %llu", o.kind == OFree ? "free" : "alloc", (unsigned long long) o.size);
	}
	plan.nheap = n;
	size_t m = c.size(120);
	int resets = 0, allocs = 0, fills = 0;
	for (size_t i = 0; i < m; ++i) {
		AOp& o = plan.op[n++];
		static const uint8_t kinds[] = {OAlloc, OFree, OReset, OFill, OVerify};
		o.kind = kinds[c.weighted({24, 5, 3, 1, 2})];
		o.how = (uint8_t) c.draw(3);
		o.pat = (uint8_t) (1 + c.draw(255));
		o.target = (uint32_t) c.draw(1000);
		o.size = o.kind == OAlloc ? genRegionSize(c) : o.kind == OFill ? 16 + c.size(3000) : 0;
		static const char* nm[] = {"alloc", "free", "reset", "fill", "verify"};
		c.note("%s %llu how=%d", nm[o.kind], (unsigned long long) o.size, o.how);
		if (o.kind == OAlloc)
			++allocs;
		if (o.kind == OFill)
			++fills;
		if (o.kind == OReset && (allocs || fills))
			++resets;
	}
	plan.n = n;
	if (resets && (allocs >= 5 || fills))
		c.nontrivial();
	if (fills)
		c.label("fills the region");
	if (resets > 2)
		c.label("3+ resets");
	runGuest(c, "allocator history", runPlan);
}

// The same short run again and again: nothing may build up from one reset to the next.
PBT_PROP(many_resets, 6) {
	static uint64_t size[12];
	static uint8_t how[12];
	static int n, rounds, fillEvery;
	n = 1 + (int) c.draw(12);
	rounds = c.chance(1, 12) ? 65000 + (int) c.draw(3000) : c.chance(1, 3) ? 1 + (int) c.draw(5000) : 1 + (int) c.draw(600);
	fillEvery = 1 + (int) c.draw(rounds > 5000 ? 4000 : 40);
	c.note("%d rounds, filled up every %d", rounds, fillEvery);
	uint64_t total = 0;
	for (int i = 0; i < n; ++i) {
		size[i] = 1 + (c.chance(1, 4) && rounds < 6000 ? c.draw(9000) : c.draw(90));
		how[i] = (uint8_t) c.draw(3);
		total += size[i] + 16;
		c.note("alloc %llu", (unsigned long long) size[i]);
	}
	while (total > 30000)
		total -= size[--n] + 16;
	if (rounds > 200)
		c.nontrivial();
	runGuest(c, "many resets", [](Guest& g) {
		int first = -1;
		static unsigned char* p[12];
		for (int r = 0; r < rounds; ++r) {
			PlatformSetup();
			for (int i = 0; i < n; ++i) {
				g.at("round %d: allocating %llu", r, (unsigned long long) size[i]);
				p[i] = allocate(how[i], size[i]);
				if (!p[i] || (uintptr_t) p[i] % 8)
					g.fail("round %d: a block of %llu bytes is %s", r, (unsigned long long) size[i], p[i] ? "not aligned" : "refused");
				for (uint64_t k = 0; k < size[i]; ++k)
					if (p[i][k])
						g.fail("round %d: byte %llu of a new block of %llu is 0x%02x", r, (unsigned long long) k, (unsigned long long) size[i], p[i][k]);
				memset(p[i], 0x11 * (i + 1), size[i]);
			}
			for (int i = 0; i < n; ++i) {
				for (uint64_t k = 0; k < size[i]; ++k)
					if (p[i][k] != 0x11 * (i + 1))
						g.fail("round %d: byte %llu of block %d was overwritten", r, (unsigned long long) k, i);
				if ((r + i) % 3 == 0)
					release(how[i], p[i]);
			}
			if (r % fillEvery == 0 || r == rounds - 1) {
				int left = 0;
				for (unsigned char* q; (q = allocate(r, 8)) != nullptr; ++left) {
					for (int k = 0; k < 8; ++k)
						if (q[k])
							g.fail("round %d: byte %d of filling block %d is 0x%02x", r, k, left, q[k]);
					memset(q, 0xEE, 8);
				}
				if (first < 0)
					first = left;
				else if (left != first)
					g.fail("round %d leaves room for %d eight-byte blocks, the first round left %d", r, left, first);
			}
		}
	});
}

// Library objects created in the region live inside it and do not disturb raw blocks around them.
PBT_PROP(objects, 80) {
	static int kinds[64], sizes[64];
	static int n, rounds;
	n = 1 + (int) c.size(30);
	rounds = 1 + (int) c.size(6);
	for (int i = 0; i < n; ++i) {
		kinds[i] = (int) c.draw(6);
		sizes[i] = (int) c.size(40);
		c.note("object kind %d size %d", kinds[i], sizes[i]);
	}
	c.note("rounds %d", rounds);
	if (n > 3 && rounds > 1)
		c.nontrivial();
	runGuest(c, "objects in the region", [](Guest& g) {
		for (int r = 0; r < rounds; ++r) {
			PlatformSetup();
			unsigned char* base = nullptr;
			uint64_t budget = 0;
			static Object* made[64];
			static unsigned char* guard[64];
			int m = 0;
			for (int i = 0; i < n && budget < 24000; ++i) {
				g.at("round %d object %d", r, i);
				unsigned char* fence = allocate(i, 24);
				if (!fence)
					g.fail("round %d: no memory for object %d after about %llu bytes", r, i, (unsigned long long) budget);
				if (!base)
					base = fence;
				for (int k = 0; k < 24; ++k)
					if (fence[k])
						g.fail("round %d: raw block %d is not zero", r, i);
				memset(fence, 0xC3, 24);
				Object* o = nullptr;
				switch (kinds[i]) {
				case 0:
					o = new String(L'x', sizes[i]);
					break;
				case 1:
					o = new StringBuilder();
					break;
				case 2:
					o = new Array(Int64Type, sizes[i]);
					break;
				case 3:
					o = new Int32Value(sizes[i] * 7);
					break;
				case 4:
					o = new DoubleValue(sizes[i] + 0.5);
					break;
				default:
					o = new Object();
				}
				budget += 500 + (uint64_t) sizes[i] * 8;
				made[m] = o;
				guard[m++] = fence;
				if (!o || (unsigned char*) o < base || (unsigned char*) o > base + 32767)
					g.fail("round %d: object %d at %p is outside the region starting at %p", r, i, (void*) o, base);
			}
			for (int i = 0; i < m; ++i) {
				for (int k = 0; k < 24; ++k)
					if (guard[i][k] != 0xC3)
						g.fail("round %d: raw block %d was overwritten by an object", r, i);
				g.at("round %d reading object %d", r, i);
				switch (kinds[i]) {
				case 0: {
					String* s = (String*) made[i];
					if (s->get_Length() != sizes[i])
						g.fail("round %d: string %d has length %d, expected %d", r, i, s->get_Length(), sizes[i]);
					for (int k = 0; k < sizes[i]; ++k)
						if (s->get_Buffer()[k] != L'x')
							g.fail("round %d: string %d was overwritten", r, i);
					break;
				}
				case 1:
					if (((StringBuilder*) made[i])->get_Length() != 0)
						g.fail("round %d: builder %d is not empty", r, i);
					break;
				case 2: {
					Array* a = (Array*) made[i];
					if (a->get_Length() != sizes[i])
						g.fail("round %d: array %d has length %d, expected %d", r, i, a->get_Length(), sizes[i]);
					for (int k = 0; k < sizes[i]; ++k)
						if (*(Int64*) a->Address(k))
							g.fail("round %d: array %d is not zero", r, i);
					if (sizes[i])
						memset(a->Address(0), 0xEE, (size_t) sizes[i] * 8);
					break;
				}
				case 3:
					if (((Int32Value*) made[i])->get_AsInt32() != sizes[i] * 7)
						g.fail("round %d: Int32 box %d changed", r, i);
					break;
				case 4:
					if (((DoubleValue*) made[i])->get_AsDouble() != sizes[i] + 0.5)
						g.fail("round %d: Double box %d changed", r, i);
					break;
				}
			}
		}
	});
}
