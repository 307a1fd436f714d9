#include "pbt.h"
#include <algorithm>
#include <cinttypes>
#include <cstdarg>
#include <map>
#include <set>
#include <unordered_set>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>

namespace pbt {

std::string (*describeException)() = nullptr;

static std::vector<Prop>& props() {
	static std::vector<Prop> p;
	return p;
}
static std::vector<Finding>& findings() {
	static std::vector<Finding> f;
	return f;
}
void add(const Prop& p) { props().push_back(p); }
void addFinding(const Finding& f) { findings().push_back(f); }

// ---------------------------------------------------------------------------------------- random
static uint64_t splitmix(uint64_t& x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
void Case::seed(uint64_t x) {
	for (int i = 0; i < 4; ++i)
		s[i] = splitmix(x);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Case::rnd() {
	uint64_t result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0];
	s[3] ^= s[1];
	s[1] ^= s[2];
	s[0] ^= s[3];
	s[2] ^= t;
	s[3] = rotl(s[3], 45);
	return result;
}
// n == 0 stands for 2^64.
uint64_t Case::enumerate(uint64_t n) {
	forced = true;
	forcedValue = index % n;
	return draw(n);
}
uint64_t Case::draw(uint64_t n) {
	uint64_t v;
	if (fz) {
		int bytes = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
		v = 0;
		for (int i = 0; i < bytes; ++i) {
			uint8_t b = 0;
			if (nfz) {
				b = *fz++;
				--nfz;
			}
			v |= (uint64_t) b << (8 * i);
		}
		if (n)
			v %= n;
	}
	else if (replay) {
		v = pos < nreplay ? replay[pos] : 0;
		if (n && v >= n)
			v %= n;
	}
	else {
		if (forced)
			v = forcedValue;
		else if (n == 0)
			v = rnd();
		else
			v = (uint64_t) (((unsigned __int128) rnd() * n) >> 64);
	}
	forced = false;
	++pos;
	if (*nrec < maxrec) {
		rec[*nrec] = v;
		++*nrec;
	}
	hash = (hash ^ v) * 0x9fb21c651e98df25ull;
	hash ^= hash >> 29;
	return v;
}
int64_t Case::range(int64_t lo, int64_t hi) {
	return (int64_t) ((uint64_t) lo + draw((uint64_t) hi - (uint64_t) lo + 1));
}
// Zig-zag around the point of [lo,hi] nearest zero, so that shrinking the draw shrinks |value|.
static int64_t zig(uint64_t k, int64_t lo, int64_t hi) {
	int64_t mid = lo > 0 ? lo : hi < 0 ? hi : 0;
	uint64_t up = (uint64_t) hi - (uint64_t) mid, down = (uint64_t) mid - (uint64_t) lo;
	uint64_t both = std::min(up, down);
	if (k <= 2 * (both < (1ull << 62) ? both : (1ull << 62))) {
		uint64_t h = (k + 1) / 2;
		return (k & 1) ? (int64_t) ((uint64_t) mid + h) : (int64_t) ((uint64_t) mid - h);
	}
	uint64_t h = k - both;
	return up > down ? (int64_t) ((uint64_t) mid + h) : (int64_t) ((uint64_t) mid - h);
}
int64_t Case::near0(int64_t lo, int64_t hi) {
	return zig(draw((uint64_t) hi - (uint64_t) lo + 1), lo, hi);
}
uint64_t Case::bits64() {
	switch (draw(4)) {
	case 0:
		return draw(64);
	case 1: {
		uint64_t b = 1ull << draw(64);
		return b + draw(5) - 2;
	}
	case 2: {
		unsigned w = (unsigned) draw(64) + 1;
		return draw(w == 64 ? 0 : (1ull << w));
	}
	default:
		return draw(0);
	}
}
// A power of two, or a digit followed by zeros in decimal.
uint64_t Case::landmark(unsigned bits) {
	uint64_t k = draw(2 * bits);
	if (k < bits)
		return 1ull << k;
	uint64_t p = draw(4) ? 1 : 1 + draw(9);
	for (k = (k - bits) % 19; k > 0; --k)
		p *= 10;
	return p;
}
int64_t Case::edge(int64_t lo, int64_t hi) {
	uint64_t span = (uint64_t) hi - (uint64_t) lo;      // inclusive span - 1
	if (span == 0)
		return lo;
	uint64_t full = span + 1;                             // 0 == 2^64
	switch (draw(6)) {
	case 0: {
		uint64_t m = std::min<uint64_t>(span, 16);
		return zig(draw(m + 1), lo, hi);
	}
	case 1: {
		uint64_t m = std::min<uint64_t>(span, 5);
		return (int64_t) ((uint64_t) hi - draw(m + 1));
	}
	case 2: {
		uint64_t m = std::min<uint64_t>(span, 5);
		return (int64_t) ((uint64_t) lo + draw(m + 1));
	}
	case 3: {
		uint64_t p = landmark(63) + draw(3) - 1;
		int64_t v = draw(2) ? (int64_t) (0 - p) : (int64_t) p;
		if (v < lo || v > hi)
			return (int64_t) ((uint64_t) lo + (full ? p % full : p));
		return v;
	}
	case 4: {
		unsigned w = (unsigned) draw(63) + 1;
		uint64_t p = draw(1ull << w);
		int64_t v = draw(2) ? (int64_t) (0 - p) : (int64_t) p;
		if (v < lo || v > hi)
			return (int64_t) ((uint64_t) lo + (full ? p % full : p));
		return v;
	}
	default:
		return (int64_t) ((uint64_t) lo + draw(full));
	}
}
uint64_t Case::uedge(uint64_t lo, uint64_t hi) {
	uint64_t span = hi - lo;
	if (span == 0)
		return lo;
	uint64_t full = span + 1;
	switch (draw(4)) {
	case 0:
		return lo + draw(std::min<uint64_t>(span, 16) + 1);
	case 1:
		return hi - draw(std::min<uint64_t>(span, 5) + 1);
	case 2: {
		uint64_t p = landmark(64) + draw(3) - 1;
		return (p < lo || p > hi) ? lo + (full ? p % full : p) : p;
	}
	default: {
		unsigned w = (unsigned) draw(64) + 1;
		uint64_t p = draw(w == 64 ? 0 : (1ull << w));
		return (p < lo || p > hi) ? lo + (full ? p % full : p) : p;
	}
	}
}
size_t Case::size(size_t maxSize) {
	if (maxSize == 0)
		return 0;
	switch (draw(4)) {
	case 0:
		return (size_t) draw(std::min<size_t>(maxSize, 3) + 1);
	case 1:
	case 2:
		return (size_t) draw(std::min<size_t>(maxSize, 12) + 1);
	default:
		return (size_t) draw(maxSize + 1);
	}
}
size_t Case::steps(size_t usual, size_t longest) {
	if (chance(1, 200))
		return longest / 2 + (size_t) draw(longest / 2 + 1);
	return size(usual);
}
size_t Case::weighted(std::initializer_list<unsigned> w) {
	unsigned total = 0;
	for (unsigned x : w)
		total += x;
	uint64_t v = draw(total);
	size_t i = 0;
	for (unsigned x : w) {
		if (v < x)
			return i;
		v -= x;
		++i;
	}
	return 0;
}
void Case::label(const char* name) { labels.push_back(name); }
void Case::note(const char* fmt, ...) {
	if (!verbose)
		return;
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (streamNotes) {
		size_t n = strlen(buf);
		buf[n < sizeof buf - 1 ? n : sizeof buf - 2] = '\n';
		(void) !write(3, buf, (n < sizeof buf - 1 ? n : sizeof buf - 2) + 1);
		return;
	}
	notes += buf;
	notes += "; ";
}
void Case::fail(const char* fmt, ...) {
	char buf[6000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	throw Fail{buf};
}

// ------------------------------------------------------------------------------------- execution
enum { MAXREC = 1 << 16 };
struct Shm {
	volatile uint64_t caseNo;
	volatile bool echo;          // the case under way is the echo of caseNo
	uint32_t nrec;
	char msg[8192];
	uint64_t rec[MAXREC];
};
enum { EXIT_OK = 0, EXIT_FAIL = 77, EXIT_HANG = 78 };

static std::string scratch;
static int hangSeconds = 20;
static Shm* gShm;
static uint64_t hangCase;
static int hangTicks;
static int slowFd = -1;                      // VERIF_SLOW=FILE: lists the cases that take seconds (development only)
static const char* slowProp = "";
enum { TICKS = 4, MEMORY_MB = 3300 };        // ticks per second of CPU time; the memory a process of cases may hold
static void onTick(int) {
	int fd = open("/proc/self/statm", O_RDONLY | O_CLOEXEC);
	char b[64];
	ssize_t n = fd < 0 ? 0 : read(fd, b, sizeof b - 1);
	if (fd >= 0)
		close(fd);
	if (n > 0) {
		b[n] = 0;
		const char* p = strchr(b, ' ');
		if (p && strtoull(p, nullptr, 10) / 256 > MEMORY_MB) {
			snprintf(gShm->msg, sizeof gShm->msg, "no result: the call holds more than %d MB of memory", MEMORY_MB);
			_exit(EXIT_HANG);
		}
	}
	if (gShm->caseNo == hangCase) {
		if (slowFd >= 0 && hangTicks > 0 && hangTicks % TICKS == 0)
			dprintf(slowFd, "%s %llu: %d s\n", slowProp, (unsigned long long) hangCase, hangTicks / TICKS);
		if (++hangTicks >= hangSeconds * TICKS) {
			snprintf(gShm->msg, sizeof gShm->msg, "no result: the call is still running after %d s of CPU time", hangSeconds);
			_exit(EXIT_HANG);
		}
	}
	else {
		hangCase = gShm->caseNo;
		hangTicks = 0;
	}
}
static void startWatch(Shm* shm) {
	gShm = shm;
	hangCase = ~0ull;
	hangTicks = 0;
	signal(SIGVTALRM, onTick);
	struct itimerval it;
	it.it_interval.tv_sec = 0;
	it.it_interval.tv_usec = 1000000 / TICKS;
	it.it_value = it.it_interval;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
// Runs one case in this process.  Returns false and fills shm->msg when the case fails.
static bool runCase(const Prop& p, Case& c, Shm* shm) {
	shm->nrec = 0;
	c.rec = shm->rec;
	c.nrec = &shm->nrec;
	c.maxrec = MAXREC;
	try {
		p.fn(c);
		return true;
	}
	catch (Fail& f) {
		snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str());
	}
	catch (...) {
		std::string d = describeException ? describeException() : "unknown C++ exception";
		snprintf(shm->msg, sizeof shm->msg, "unexpected exception escaped: %s", d.c_str());
	}
	return false;
}
static Shm* newShm() {
	void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return (Shm*) m;
}
static void redirectErr(const std::string& file) {
	int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd >= 0) {
		dup2(fd, 2);
		close(fd);
	}
}
static std::string readFile(const std::string& f) {
	std::string r;
	FILE* fp = fopen(f.c_str(), "r");
	if (!fp)
		return r;
	char b[65536];
	size_t n;
	while ((n = fread(b, 1, sizeof b, fp)) > 0)
		r.append(b, n);
	fclose(fp);
	return r;
}
static std::string crashText(int status, const std::string& errFile) {
	std::string err = readFile(errFile), line;
	size_t p = err.find("ERROR: AddressSanitizer");
	if (p != std::string::npos) {
		line = err.substr(p, err.find('\n', p) - p);
		size_t cut = line.find(" on address");
		if (cut == std::string::npos)
			cut = line.find(" on unknown");
		if (cut != std::string::npos)
			line.resize(cut);
		size_t q = err.find("SUMMARY: ");
		if (q != std::string::npos)
			line += " | " + err.substr(q, err.find('\n', q) - q);
		// first frames inside the library
		int shown = 0;
		for (size_t f = err.find("    #"); f != std::string::npos && shown < 6; f = err.find("    #", f + 1)) {
			std::string fr = err.substr(f, err.find('\n', f) - f);
			size_t in = fr.find(" in ");
			if (in != std::string::npos)
				line += "\n      " + fr.substr(in + 4);
			++shown;
		}
	}
	else {
		p = err.find("runtime error");
		if (p != std::string::npos)
			line = err.substr(p, 300);
	}
	char b[128];
	if (WIFSIGNALED(status))
		snprintf(b, sizeof b, "crash: signal %d ", WTERMSIG(status));
	else
		snprintf(b, sizeof b, "crash: exit status %d ", WEXITSTATUS(status));
	return b + line;
}
struct Result {
	bool ok = true;
	std::string msg;
	std::vector<uint64_t> rec;
	std::string notes;
	bool nontriv = false;
};
// One case, from a recorded sequence or a seed, in a child of its own.
static Result isolated(const Prop& p, const uint64_t* seq, size_t n, uint64_t seed, bool verbose, int hang, const std::string* bytes = nullptr, uint64_t index = 0) {
	static Shm* shm = newShm();
	Result r;
	shm->msg[0] = 0;
	shm->nrec = 0;
	shm->caseNo = 0;
	fflush(stdout);
	std::string ef = scratch + "/iso.err", nf = scratch + "/iso.notes";
	pid_t pid = fork();
	if (pid == 0) {
		redirectErr(ef);
		hangSeconds = hang;
		startWatch(shm);
		Case c;
		c.verbose = verbose;
		if (verbose) {
			int fd = open(nf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			if (fd != 3) {
				dup2(fd, 3);
				close(fd);
			}
			c.streamNotes = true;
		}
		if (bytes) {
			c.fz = (const uint8_t*) bytes->data();
			c.nfz = bytes->size();
		}
		else if (seq) {
			c.replay = seq;
			c.nreplay = n;
		}
		else {
			c.seed(seed);
			c.index = index;
		}
		bool ok = runCase(p, c, shm);
		shm->caseNo = c.nontriv ? 2 : 1;
		_exit(ok ? EXIT_OK : EXIT_FAIL);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0) {
	}
	r.nontriv = shm->caseNo == 2;
	r.rec.assign(shm->rec, shm->rec + shm->nrec);
	if (verbose)
		r.notes = readFile(nf);
	if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_OK)
		return r;
	r.ok = false;
	if (WIFEXITED(st) && (WEXITSTATUS(st) == EXIT_FAIL || WEXITSTATUS(st) == EXIT_HANG))
		r.msg = shm->msg;
	else
		r.msg = crashText(st, ef);
	return r;
}
// Several recorded cases one after another in one child: for failures that need what an earlier case
// left behind in the process.  The result is that of the first failing case.
typedef std::vector<std::vector<uint64_t>> History;
static Result isolatedHistory(const Prop& p, const History& hs, bool verbose, int hang) {
	static Shm* shm = newShm();
	Result r;
	shm->msg[0] = 0;
	shm->nrec = 0;
	shm->caseNo = 0;
	fflush(stdout);
	std::string ef = scratch + "/his.err", nf = scratch + "/his.notes";
	pid_t pid = fork();
	if (pid == 0) {
		redirectErr(ef);
		hangSeconds = hang;
		startWatch(shm);
		if (verbose) {
			int fd = open(nf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			if (fd != 3) {
				dup2(fd, 3);
				close(fd);
			}
		}
		uint64_t dummy = 0;
		for (size_t i = 0; i < hs.size(); ++i) {
			Case c;
			c.verbose = c.streamNotes = verbose;
			c.replay = hs[i].empty() ? &dummy : hs[i].data();
			c.nreplay = hs[i].size();
			if (verbose)
				c.note("case %zu of %zu in one process", i + 1, hs.size());
			if (!runCase(p, c, shm))
				_exit(EXIT_FAIL);
			shm->caseNo = i + 1;
		}
		_exit(EXIT_OK);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0) {
	}
	if (verbose)
		r.notes = readFile(nf);
	if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_OK)
		return r;
	r.ok = false;
	if (WIFEXITED(st) && (WEXITSTATUS(st) == EXIT_FAIL || WEXITSTATUS(st) == EXIT_HANG))
		r.msg = shm->msg;
	else
		r.msg = crashText(st, ef);
	return r;
}
static double now() {
	struct timeval tv;
	gettimeofday(&tv, nullptr);
	return tv.tv_sec + tv.tv_usec * 1e-6;
}
// ------------------------------------------------------------------------------------- shrinking
static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, std::string& msg, double budget) {
	double end = now() + budget;
	int tries = 0;
	auto smaller = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
		if (a.size() != b.size())
			return a.size() < b.size();
		return a < b;
	};
	auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
		if (now() > end || tries > 6000)
			return false;
		++tries;
		Result r = isolated(p, cand.data(), cand.size(), 0, false, 4);
		if (r.ok)
			return false;
		std::vector<uint64_t> c = r.rec.size() < cand.size() ? r.rec : cand;
		while (!c.empty() && c.back() == 0)
			c.pop_back();
		if (!smaller(c, best))
			return false;
		best = c;
		msg = r.msg;
		return true;
	};
	while (!best.empty() && best.back() == 0)
		best.pop_back();
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len = len > 8 ? len / 2 : len - 1) {
			for (size_t i = 0; i + len <= best.size();) {
				std::vector<uint64_t> cand = best;
				cand.erase(cand.begin() + i, cand.begin() + i + len);
				if (attempt(cand))
					progress = true;
				else
					i += len > 8 ? len : 1;
			}
		}
		for (size_t i = 0; i < best.size(); ++i) {
			if (best[i] == 0)
				continue;
			std::vector<uint64_t> cand = best;
			cand[i] = 0;
			if (attempt(cand)) {
				progress = true;
				continue;
			}
			uint64_t lo = 0;
			while (i < best.size() && lo + 1 < best[i] && now() < end) {
				uint64_t mid = lo + (best[i] - lo) / 2;
				cand = best;
				cand[i] = mid;
				if (attempt(cand))
					progress = true;
				else
					lo = mid;
			}
			if (i < best.size() && best[i] > 0) {
				cand = best;
				--cand[i];
				if (attempt(cand))
					progress = true;
			}
			// delete a later draw while lowering this one (sizes)
			if (i < best.size() && best[i] > 0)
				for (size_t j = i + 1; j < best.size() && j < i + 12; ++j) {
					cand = best;
					--cand[i];
					cand.erase(cand.begin() + j);
					if (attempt(cand)) {
						progress = true;
						break;
					}
				}
		}
	}
	return best;
}
// ------------------------------------------------------------------------------------------ json
static std::string js(const std::string& s) {
	std::string r = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') {
			r += '\\';
			r += (char) ch;
		}
		else if (ch == '\n')
			r += "\\n";
		else if (ch < 32 || ch >= 127) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", ch);
			r += b;
		}
		else
			r += (char) ch;
	}
	return r + "\"";
}
// ---------------------------------------------------------------------------------------- workers
struct Batch {
	int prop;
	uint64_t from, count;
};
struct Slot {
	pid_t pid = 0;
	Batch b;
	Shm* shm = nullptr;
};
struct Failure {
	uint64_t caseNo = 0;
	uint64_t from = 0, count = 0, seed = 0;      // the batch it happened in
	bool inBatch = false, echo = false;
	std::vector<uint64_t> rec;
	std::string msg;
};
static uint64_t caseSeed(uint64_t seed, const char* prop, uint64_t n) {
	uint64_t h = seed * 0x9e3779b97f4a7c15ull + 12345;
	for (const char* q = prop; *q; ++q)
		h = (h ^ (uint8_t) *q) * 0x100000001b3ull;
	uint64_t x = h + n * 0xd1342543de82ef95ull;
	return splitmix(x);
}
// Some cases are followed by an echo in the same process: the same draws again, or nearly the same.  What the
// library keeps between calls and should not (a cached answer, an unfinished state after an error) shows there.
static bool hasEcho(const Prop& p, uint64_t n) {
	return !(p.flags & FORK_EACH) && n % 4 == 1;
}
static std::vector<uint64_t> echoOf(std::vector<uint64_t> q, const Prop& p, uint64_t seed, uint64_t n) {
	uint64_t x = caseSeed(seed ^ 0xec0, p.name, n);
	if (q.empty() || q.size() >= MAXREC)
		return q;
	auto one = [&]() -> uint64_t& { return q[splitmix(x) % q.size()]; };
	switch (splitmix(x) % 6) {
	case 0:
		break;
	case 1:
		one() = splitmix(x);
		break;
	case 2:
		++one();
		break;
	case 3: {
		uint64_t& v = one();
		if (v)
			--v;
		break;
	}
	case 4:
		one() ^= 1ull << splitmix(x) % 64;
		break;
	default:
		std::swap(one(), one());
		break;
	}
	return q;
}
static void worker(const Prop& p, const Batch& b, uint64_t seed, Shm* shm, const std::string& base) {
	redirectErr(base + ".err");
	slowProp = p.name;
	if (const char* f = getenv("VERIF_SLOW"))
		slowFd = open(f, O_CREAT | O_APPEND | O_WRONLY | O_CLOEXEC, 0600);
	startWatch(shm);
	std::vector<uint64_t> hashes;
	std::map<std::string, uint64_t> labels;
	uint64_t done = 0, nontriv = 0;
	int rc = EXIT_OK;
	std::vector<uint64_t> before;
	shm->echo = false;
	for (uint64_t i = b.from; i < b.from + b.count;) {
		Case c;
		if (shm->echo) {
			c.replay = before.data();
			c.nreplay = before.size();
		}
		else
			c.seed(caseSeed(seed, p.name, i));
		c.index = i;
		bool ok = runCase(p, c, shm);
		if (!ok) {
			rc = EXIT_FAIL;
			break;
		}
		if (!shm->echo && hasEcho(p, i)) {
			before = echoOf(std::vector<uint64_t>(shm->rec, shm->rec + shm->nrec), p, seed, i);
			if (before.empty())
				before.push_back(0);
			shm->echo = true;
		}
		else {
			shm->echo = false;
			shm->caseNo = ++i;
		}
		++done;
		if (c.nontriv) {
			++nontriv;
			hashes.push_back(c.hash);
		}
		std::sort(c.labels.begin(), c.labels.end(), [](const char* a, const char* b2) { return strcmp(a, b2) < 0; });
		for (size_t k = 0; k < c.labels.size(); ++k)
			if (k == 0 || strcmp(c.labels[k], c.labels[k - 1]) != 0)
				labels[c.labels[k]]++;
	}
	FILE* f = fopen((base + ".res").c_str(), "w");
	if (f) {
		fprintf(f, "%" PRIu64 " %" PRIu64 "\n", done, nontriv);
		for (auto& l : labels)
			fprintf(f, "L %" PRIu64 " %s\n", l.second, l.first.c_str());
		fprintf(f, "H %zu\n", hashes.size());
		fwrite(hashes.data(), sizeof(uint64_t), hashes.size(), f);
		fclose(f);
	}
	_exit(rc);
}
static std::vector<uint64_t> parseSeq(const char* s) {
	std::vector<uint64_t> r;
	char* e;
	while (*s) {
		uint64_t v = strtoull(s, &e, 10);
		if (e == s)
			break;
		r.push_back(v);
		s = e;
	}
	return r;
}

// A failure that needs the cases run before it: replays the batch up to it, drops every case that is
// not needed, and reports the rest as a history.
static bool reportHistory(const Prop& p, const Failure& f, std::string& vjson) {
	History hs;
	for (uint64_t i = f.from; i < f.caseNo + f.echo; ++i) {
		hs.push_back(isolated(p, nullptr, 0, caseSeed(f.seed, p.name, i), false, 20, nullptr, i).rec);
		if (hasEcho(p, i) && i < f.caseNo)
			hs.push_back(echoOf(hs.back(), p, f.seed, i));
	}
	hs.push_back(f.rec);
	std::string msg;
	auto fails = [&](const History& h, int times) {
		for (int i = 0; i < times; ++i) {
			Result r = isolatedHistory(p, h, false, 10);
			if (r.ok)
				return false;
			msg = r.msg;
		}
		return true;
	};
	if (!fails(hs, 3))
		return false;
	double end = now() + 40;
	// the latest start that still fails
	size_t lo = 0, hi = hs.size() - 1;
	while (lo < hi && now() < end) {
		size_t mid = lo + (hi - lo + 1) / 2;
		if (fails(History(hs.begin() + mid, hs.end()), 1))
			lo = mid;
		else
			hi = mid - 1;
	}
	hs.erase(hs.begin(), hs.begin() + lo);
	for (size_t len = std::max<size_t>(hs.size() / 2, 1); len >= 1 && now() < end; len /= 2)
		for (size_t i = 0; i + len < hs.size() && now() < end;) {
			History h = hs;
			h.erase(h.begin() + i, h.begin() + i + len);
			if (fails(h, 1))
				hs = h;
			else
				i += len;
		}
	for (auto& q : hs)
		while (q.size() > 0 && q.back() == 0)
			q.pop_back();
	for (size_t k = 0; k < hs.size(); ++k)
		for (size_t len = std::max<size_t>(hs[k].size() / 2, 1); len >= 1 && now() < end; len /= 2)
			for (size_t i = 0; i + len <= hs[k].size() && now() < end;) {
				History h = hs;
				h[k].erase(h[k].begin() + i, h[k].begin() + i + len);
				if (fails(h, 1))
					hs = h;
				else
					i += len;
			}
	if (!fails(hs, 3))
		return false;
	Result r = isolatedHistory(p, hs, true, 20);
	std::string seq;
	for (size_t k = 0; k < hs.size(); ++k) {
		if (k)
			seq += "\nchoices";
		for (uint64_t v : hs[k])
			seq += " " + std::to_string(v);
	}
	vjson += (vjson.empty() ? "" : ",") + std::string("{\"subprop\":") + js(p.name) + ",\"case\":" + std::to_string(f.caseNo) + ",\"msg\":" + js("after " + std::to_string(hs.size() - 1) + " earlier case(s) in the same process: " + msg) + ",\"notes\":" + js(r.notes) + ",\"choices\":" + js(seq) + "}";
	return true;
}
// A whole batch again, as the search runs it; what matters may be where its objects came to lie in memory.
static bool runBatch(const Prop& p, const Batch& b, uint64_t seed, std::string& msg, uint64_t& at) {
	static Shm* shm = newShm();
	shm->msg[0] = 0;
	shm->nrec = 0;
	shm->caseNo = b.from;
	fflush(stdout);
	std::string base = scratch + "/batch";
	pid_t pid = fork();
	if (pid == 0)
		worker(p, b, seed, shm, base);
	int st;
	while (waitpid(pid, &st, 0) < 0) {
	}
	at = shm->caseNo;
	if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_OK)
		return true;
	msg = WIFEXITED(st) && (WEXITSTATUS(st) == EXIT_FAIL || WEXITSTATUS(st) == EXIT_HANG) ? std::string(shm->msg) : crashText(st, base + ".err");
	return false;
}
static bool reportBatch(const Prop& p, const Failure& f, std::string& vjson) {
	Batch b{0, f.from, f.count};
	std::string msg;
	uint64_t at = 0;
	for (int i = 0; i < 3; ++i)
		if (runBatch(p, b, f.seed, msg, at))
			return false;
	vjson += (vjson.empty() ? "" : ",") + std::string("{\"subprop\":") + js(p.name) + ",\"case\":" + std::to_string(at) + ",\"msg\":" + js("among many cases in the same process: " + msg) +
		",\"notes\":" + js("depends on where earlier cases left memory; the cases of the batch are run again by the replay") + ",\"choices\":" + js("\nbatch " + std::to_string(b.from) + " " + std::to_string(b.count) + " " + std::to_string(f.seed)) + "}";
	return true;
}
// Confirms a failure three times, shrinks it, and appends it to the report.
static bool report(const Prop& p, Failure& f, std::string& vjson, std::string& unstable) {
	std::vector<uint64_t> best = f.rec;
	std::string msg = f.msg;
	uint64_t dummy = 0;
	auto confirm = [&](const std::vector<uint64_t>& seq) {
		for (int i = 0; i < 3; ++i) {
			Result r = isolated(p, seq.empty() ? &dummy : seq.data(), seq.size(), 0, false, 10);
			if (r.ok)
				return false;
			msg = r.msg;
		}
		return true;
	};
	if (!confirm(f.rec)) {
		if (f.inBatch && (reportHistory(p, f, vjson) || reportBatch(p, f, vjson)))
			return true;
		unstable += (unstable.empty() ? "" : ",") + js(std::string(p.name) + " case " + std::to_string(f.caseNo) + ": " + f.msg);
		return false;
	}
	best = shrink(p, f.rec, msg, 40);
	if (!confirm(best)) {
		best = f.rec;
		confirm(best);
	}
	Result r = isolated(p, best.empty() ? &dummy : best.data(), best.size(), 0, true, 20);
	std::string seq;
	for (uint64_t v : best)
		seq += " " + std::to_string(v);
	vjson += (vjson.empty() ? "" : ",") + std::string("{\"subprop\":") + js(p.name) + ",\"case\":" + std::to_string(f.caseNo) + ",\"msg\":" + js(msg) + ",\"notes\":" + js(r.notes) + ",\"choices\":" + js(seq) + "}";
	return true;
}
static int loadReplay(const std::string& file, std::vector<uint64_t>& seq, History* all = nullptr, Failure* batch = nullptr) {
	std::string txt = readFile(file), name;
	for (size_t q = 0; q < txt.size();) {
		size_t e = txt.find('\n', q);
		if (e == std::string::npos)
			e = txt.size();
		std::string l = txt.substr(q, e - q);
		if (l.compare(0, 8, "subprop ") == 0)
			name = l.substr(8);
		else if (l.compare(0, 6, "batch ") == 0) {
			std::vector<uint64_t> v = parseSeq(l.c_str() + 6);
			if (batch && v.size() == 3) {
				batch->inBatch = true;
				batch->from = v[0];
				batch->count = v[1];
				batch->seed = v[2];
			}
		}
		else if (l.compare(0, 7, "choices") == 0) {
			seq = parseSeq(l.c_str() + 7);
			if (all)
				all->push_back(seq);
		}
		q = e + 1;
	}
	for (size_t i = 0; i < props().size(); ++i)
		if (name == props()[i].name)
			return (int) i;
	return -1;
}

int main(int argc, char** argv) {
	uint64_t seed = 1;
	double scale = 1;
	int jobs = 8;
	std::string out, only, replayFile, confirmFile, confirmBytes;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed")
			seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--scale")
			scale = atof(val().c_str());
		else if (a == "--jobs")
			jobs = atoi(val().c_str());
		else if (a == "--out")
			out = val();
		else if (a == "--scratch")
			scratch = val();
		else if (a == "--only")
			only = val();
		else if (a == "--confirm")
			confirmFile = val();
		else if (a == "--confirm-bytes")
			confirmBytes = val();
		else if (a == "--replay")
			replayFile = val();
		else if (a == "--list") {
			for (auto& p : props())
				printf("%s %d%s\n", p.name, p.weight, p.flags & FORK_EACH ? " fork" : "");
			return 0;
		}
	}
	if (scratch.empty()) {
		fprintf(stderr, "--scratch needed\n");
		return 2;
	}
	if (!replayFile.empty()) {
		std::vector<uint64_t> seq;
		History all;
		Failure whole;
		int pi = loadReplay(replayFile, seq, &all, &whole);
		if (pi < 0) {
			fprintf(stderr, "unknown sub-property in %s\n", replayFile.c_str());
			return 2;
		}
		if (whole.inBatch) {
			std::string msg;
			uint64_t at = 0;
			bool ok = runBatch(props()[pi], Batch{pi, whole.from, whole.count}, whole.seed, msg, at);
			printf("%s\n", ok ? "PASS" : ("FAIL at case " + std::to_string(at) + ": " + msg).c_str());
			return ok ? 0 : 1;
		}
		uint64_t dummy = 0;
		Result r = all.size() > 1 ? isolatedHistory(props()[pi], all, true, 20) : isolated(props()[pi], seq.empty() ? &dummy : seq.data(), seq.size(), 0, true, 20);
		printf("%s\n%s\n", r.notes.c_str(), r.ok ? "PASS" : ("FAIL: " + r.msg).c_str());
		return r.ok ? 0 : 1;
	}
	if (!confirmFile.empty() || !confirmBytes.empty()) {
		Failure f;
		f.caseNo = 0;
		int pi = -1;
		if (!confirmFile.empty())
			pi = loadReplay(confirmFile, f.rec);
		else {
			std::string bytes = readFile(confirmBytes);
			std::vector<int> usable;
			for (size_t i = 0; i < props().size(); ++i)
				if (!(props()[i].flags & FORK_EACH))
					usable.push_back((int) i);
			if (!bytes.empty() && !usable.empty()) {
				pi = usable[(uint8_t) bytes[0] % usable.size()];
				std::string rest = bytes.substr(1);
				Result r = isolated(props()[pi], nullptr, 0, 0, false, 20, &rest);
				f.rec = r.rec;
			}
		}
		std::string vjson, unstable;
		if (pi >= 0)
			report(props()[pi], f, vjson, unstable);
		FILE* o = fopen(out.c_str(), "w");
		if (!o)
			return 2;
		fprintf(o, "{\"failures\":[%s],\"unstable\":[%s]}\n", vjson.c_str(), unstable.c_str());
		fclose(o);
		return 0;
	}
	double t0 = now();
	// Findings: specific inputs recorded as failing on the committed tree.
	std::string fjson;
	for (auto& f : findings()) {
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			redirectErr(scratch + "/finding.err");
			Shm* s = newShm();
			startWatch(s);
			bool bad = true;
			try {
				bad = f.stillFails();
			}
			catch (...) {
			}
			_exit(bad ? 1 : 0);
		}
		int st;
		while (waitpid(pid, &st, 0) < 0) {
		}
		bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
		fjson += (fjson.empty() ? "" : ",") + std::string("{\"key\":") + js(f.key) + ",\"text\":" + js(f.text) + ",\"fails\":" + (bad ? "true" : "false") + "}";
	}
	std::vector<Batch> work;
	const uint64_t batchSize = 1500;
	// interleave sub-properties so every one of them gets going early
	std::vector<uint64_t> total(props().size()), given(props().size());
	for (size_t i = 0; i < props().size(); ++i)
		total[i] = (!only.empty() && only != props()[i].name) ? 0 : (uint64_t) (props()[i].weight * 100 * scale);
	bool more = true;
	while (more) {
		more = false;
		for (size_t i = 0; i < props().size(); ++i)
			if (given[i] < total[i]) {
				uint64_t bs = (props()[i].flags & FORK_EACH) ? 1 : std::min<uint64_t>(props()[i].weight <= 60 ? 25 : props()[i].weight <= 120 ? 100 : batchSize, std::max<uint64_t>(50, total[i] / 16));   // heavy cases in small batches: the library seldom frees
				if (bs == batchSize && given[i] == 0)
					bs *= 8;                   // one long stretch in the same process: what counts calls or fills a table shows there
				uint64_t n = std::min(bs, total[i] - given[i]);
				work.push_back(Batch{(int) i, given[i], n});
				given[i] += n;
				more = true;
			}
	}
	std::vector<Slot> slots(jobs);
	for (auto& s : slots)
		s.shm = newShm();
	std::vector<uint64_t> evals(props().size()), nontriv(props().size());
	struct HashSet {
		std::vector<uint64_t> v;
		size_t sorted = 0;                 // v[0, sorted) is sorted and free of duplicates
		void compact(bool all) {
			if (!all && v.size() < 2 * sorted + 4000000)
				return;
			std::sort(v.begin(), v.end());
			v.erase(std::unique(v.begin(), v.end()), v.end());
			sorted = v.size();
		}
		size_t size() {
			compact(true);
			return v.size();
		}
	};
	std::vector<HashSet> distinct(props().size());
	std::vector<std::map<std::string, uint64_t>> labels(props().size());
	std::map<int, Failure> failures;
	size_t next = 0;
	int running = 0;
	while (next < work.size() || running) {
		while (running < jobs && next < work.size()) {
			Batch b = work[next++];
			// A later batch of an already failed sub-property cannot hold a lower failing case.
			auto it = failures.find(b.prop);
			if (it != failures.end() && it->second.caseNo < b.from)
				continue;
			for (size_t k = 0; k < slots.size(); ++k)
				if (!slots[k].pid) {
					slots[k].b = b;
					slots[k].shm->caseNo = b.from;
					slots[k].shm->nrec = 0;
					slots[k].shm->msg[0] = 0;
					fflush(stdout);
					fflush(stderr);
					pid_t pid = fork();
					if (pid == 0)
						worker(props()[b.prop], b, seed, slots[k].shm, scratch + "/w" + std::to_string(k));
					if (pid < 0) {
						perror("fork");
						return 2;
					}
					slots[k].pid = pid;
					++running;
					break;
				}
		}
		if (!running)
			break;
		int st;
		pid_t pid = waitpid(-1, &st, 0);
		for (size_t k = 0; k < slots.size(); ++k)
			if (slots[k].pid == pid) {
				slots[k].pid = 0;
				--running;
				Batch& b = slots[k].b;
				std::string base = scratch + "/w" + std::to_string(k);
				bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_OK);
				if (bad) {
					Failure f;
					f.caseNo = slots[k].shm->caseNo;
					f.from = b.from;
					f.count = b.count;
					f.seed = seed;
					f.inBatch = true;
					f.echo = slots[k].shm->echo;
					f.rec.assign(slots[k].shm->rec, slots[k].shm->rec + slots[k].shm->nrec);
					if (WIFEXITED(st) && (WEXITSTATUS(st) == EXIT_FAIL || WEXITSTATUS(st) == EXIT_HANG))
						f.msg = slots[k].shm->msg;
					else
						f.msg = crashText(st, base + ".err");
					evals[b.prop] += f.caseNo - b.from + 1;
					auto it = failures.find(b.prop);
					if (it == failures.end() || f.caseNo < it->second.caseNo)
						failures[b.prop] = f;
				}
				FILE* fp = fopen((base + ".res").c_str(), "r");
				if (fp) {
					char line[512];
					uint64_t d = 0, nt = 0;
					if (fgets(line, sizeof line, fp) && sscanf(line, "%" SCNu64 " %" SCNu64, &d, &nt) == 2) {
						if (!bad)
							evals[b.prop] += d;
						nontriv[b.prop] += nt;
					}
					while (fgets(line, sizeof line, fp)) {
						if (line[0] == 'L') {
							uint64_t n;
							int off = 0;
							if (sscanf(line, "L %" SCNu64 " %n", &n, &off) >= 1) {
								std::string nm = line + off;
								while (!nm.empty() && nm.back() == '\n')
									nm.pop_back();
								labels[b.prop][nm] += n;
							}
						}
						else if (line[0] == 'H') {
							std::vector<uint64_t>& v = distinct[b.prop].v;
							size_t n = strtoull(line + 2, nullptr, 10), old = v.size();
							v.resize(old + n);
							v.resize(old + fread(v.data() + old, sizeof(uint64_t), n, fp));
							distinct[b.prop].compact(false);
							break;
						}
					}
					fclose(fp);
					unlink((base + ".res").c_str());
				}
			}
	}
	double searchT = now() - t0;
	// Shrink and confirm.
	std::string vjson, unstable;
	int reported = 0;
	for (auto& kv : failures) {
		if (reported >= 4 || (reported && now() - t0 > 200))
			break;
		if (report(props()[kv.first], kv.second, vjson, unstable))
			++reported;
	}
	// Samples: the first non-trivial cases of each sub-property, rerun with notes.
	std::string sjson;
	uint64_t E = 0, D = 0;
	std::string cjson;
	for (size_t i = 0; i < props().size(); ++i) {
		E += evals[i];
		D += distinct[i].size();
		if (!total[i])
			continue;
		int got = 0;
		for (uint64_t n = 0; n < total[i] && n < 40 && got < 2; ++n) {
			if (failures.count((int) i))
				break;
			Result r = isolated(props()[i], nullptr, 0, caseSeed(seed, props()[i].name, n), true, 20, nullptr, n);
			if (!r.ok || !r.nontriv)
				continue;
			std::string t = r.notes;
			for (char& ch : t)
				if (ch == '\n')
					ch = ';';
			if (t.size() > 700)
				t = t.substr(0, 700) + "...";
			sjson += (sjson.empty() ? "" : ",") + js(std::string(props()[i].name) + ": " + t);
			++got;
		}
		cjson += (cjson.empty() ? "" : ",") + js(props()[i].name) + ":{\"cases\":" + std::to_string(evals[i]) + ",\"nontrivial\":" + std::to_string(nontriv[i]) + ",\"distinct_nontrivial\":" + std::to_string(distinct[i].size()) + ",\"classes\":{";
		bool first = true;
		for (auto& l : labels[i]) {
			cjson += (first ? "" : ",") + js(l.first) + ":" + std::to_string(l.second);
			first = false;
		}
		cjson += "}}";
	}
	FILE* o = fopen(out.c_str(), "w");
	if (!o) {
		perror("out");
		return 2;
	}
	struct rusage ru;
	getrusage(RUSAGE_CHILDREN, &ru);
	fprintf(o, "{\"property\":%s,\"rule\":%s,\"evaluations\":%" PRIu64 ",\"distinct_nontrivial\":%" PRIu64 ",\"search_s\":%.2f,\"peak_mb\":%ld,\"findings\":[%s],\"failures\":[%s],\"unstable\":[%s],\"subprops\":{%s},\"samples\":[%s]}\n",
		js(propertyId).c_str(), js(ruleText).c_str(), E, D, searchT, ru.ru_maxrss / 1024, fjson.c_str(), vjson.c_str(), unstable.c_str(), cjson.c_str(), sjson.c_str());
	fclose(o);
	return failures.empty() ? 0 : 1;
}

#ifdef PBT_FUZZ
// libFuzzer entry: byte 0 selects the sub-property, the rest feeds the draws.
static Shm fuzzShm;
int fuzzOne(const uint8_t* data, size_t size) {
	if (size < 1)
		return 0;
	static std::vector<size_t> usable;
	if (usable.empty())
		for (size_t i = 0; i < props().size(); ++i)
			if (!(props()[i].flags & FORK_EACH))
				usable.push_back(i);
	if (usable.empty())
		return 0;
	const Prop& p = props()[usable[data[0] % usable.size()]];
	Case c;
	c.fz = data + 1;
	c.nfz = size - 1;
	bool ok = runCase(p, c, &fuzzShm);
	if (!ok) {
		const char* path = getenv("PBT_FUZZ_OUT");
		FILE* f = fopen(path ? path : "fuzz.fail", "w");
		if (f) {
			fprintf(f, "subprop %s\nchoices", p.name);
			for (uint32_t i = 0; i < fuzzShm.nrec; ++i)
				fprintf(f, " %" PRIu64, fuzzShm.rec[i]);
			fprintf(f, "\nmsg %s\n", fuzzShm.msg);
			fclose(f);
		}
		abort();
	}
	return 0;
}
#endif
}
#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) { return pbt::fuzzOne(data, size); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:allocator_may_return_null=1:handle_segv=1"; }
#else
extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:exitcode=99:max_malloc_fill_size=4096:malloc_fill_byte=190";
}
int main(int argc, char** argv) { return pbt::main(argc, argv); }
#endif
