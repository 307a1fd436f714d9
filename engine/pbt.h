// Choice-sequence property-based testing engine.
//
// A case is a finite sequence of bounded draws.  Random search draws fresh values, replay and
// shrinking feed a recorded sequence back (missing draws are 0, the simplest choice), and the
// libFuzzer build decodes fuzzer bytes into the same sequence.  Cases run in forked workers so a
// crash, a sanitizer report or a hang is an observed failure rather than the end of the run.
#pragma once
#include <memory>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
	std::string msg;
};

class Case {
public:
	// Choice sources ---------------------------------------------------------------------------
	uint64_t draw(uint64_t n);                    // uniform in [0,n); 0 is the simplest
	uint64_t enumerate(uint64_t n);               // case number mod n: walks a finite space completely
	bool coin() { return draw(2) != 0; }
	bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // simplest: false
	int64_t range(int64_t lo, int64_t hi);        // inclusive, simplest is lo
	int64_t near0(int64_t lo, int64_t hi);        // inclusive, simplest is the value nearest 0
	uint64_t bits64();                            // any 64-bit word, structured and uniform mixed
	int64_t edge(int64_t lo, int64_t hi);         // inclusive, biased to ends, 0, powers of two
	uint64_t uedge(uint64_t lo, uint64_t hi);
	size_t size(size_t maxSize);                  // 0..maxSize, biased to small
	template<class T> const T& pick(const std::vector<T>& v) { return v[(size_t) draw(v.size())]; }
	template<class T, size_t N> const T& pick(const T (&v)[N]) { return v[(size_t) draw(N)]; }
	size_t steps(size_t usual, size_t longest);   // usually size(usual), now and then a long history
	uint64_t landmark(unsigned bits);
	size_t weighted(std::initializer_list<unsigned> w);

	// Reporting --------------------------------------------------------------------------------
	void nontrivial() { nontriv = true; }
	void label(const char* name);
	void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	bool verbose = false;
	bool nontriv = false;
	std::vector<const char*> labels;
	std::string notes;       // collected when verbose
	uint64_t hash = 0;

	// engine internals
	uint64_t* rec = nullptr;
	uint32_t* nrec = nullptr;
	uint32_t maxrec = 0;
	const uint64_t* replay = nullptr;
	size_t nreplay = 0;
	size_t pos = 0;
	uint64_t s[4];
	uint64_t index = 0;
	bool forced = false;
	uint64_t forcedValue = 0;
	const uint8_t* fz = nullptr;
	size_t nfz = 0;
	bool streamNotes = false;
	void seed(uint64_t x);
	uint64_t rnd();
};

typedef void (*PropFn)(Case&);
struct Prop {
	const char* name;
	PropFn fn;
	int weight;                // cases in the quick tier, in units of 100
	int flags;
};
enum { FORK_EACH = 1 };        // every case in its own process (the case changes process-wide state)
void add(const Prop& p);
struct Finding {
	const char* key;
	const char* text;
	bool (*stillFails)();      // runs in a child; a crash counts as still failing
};
void addFinding(const Finding& f);

struct Reg {
	Reg(const char* n, PropFn f, int w, int flags = 0) { add(Prop{n, f, w, flags}); }
};
struct RegF {
	RegF(const char* k, const char* t, bool (*f)()) { addFinding(Finding{k, t, f}); }
};
extern const char* propertyId;
extern const char* ruleText;
// Called by the library glue: turns a library exception in flight into text.
extern std::string (*describeException)();
int main(int argc, char** argv);
}

#define PBT_PROP(name, weight) static void name(pbt::Case& c); static pbt::Reg reg_##name(#name, name, weight); static void name(pbt::Case& c)
#define PBT_PROP_FORK(name, weight) static void name(pbt::Case& c); static pbt::Reg reg_##name(#name, name, weight, pbt::FORK_EACH); static void name(pbt::Case& c)
#define PBT_FINDING(key, text) static bool finding_##key(); static pbt::RegF regf_##key(#key, text, finding_##key); static bool finding_##key()
#define PBT_MAIN(id, rule) namespace pbt { const char* propertyId = id; const char* ruleText = rule; }
