// Runs code in a process of its own whose results come back through shared memory.  Needed wherever
// PlatformSetup() is involved: it replaces operator new for the whole process and cannot be undone,
// so the code inside must not use std containers after it and is thrown away afterwards.
#pragma once
#include "pbt.h"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct GuestShm {
	char failMsg[4096];
	volatile int failed;
	char at[512];              // what the guest was doing, for crash reports
	size_t n;
	char text[1 << 20];        // transcript
};
inline GuestShm* guestShm() {
	static GuestShm* s = [] {
		void* m = mmap(nullptr, sizeof(GuestShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED)
			abort();
		return (GuestShm*) m;
	}();
	return s;
}
struct Guest {
	GuestShm* s;
	[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(s->failMsg, sizeof s->failMsg, fmt, ap);
		va_end(ap);
		s->failed = 1;
		_exit(0);
	}
	void at(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(s->at, sizeof s->at, fmt, ap);
		va_end(ap);
	}
	void put(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
		va_list ap;
		va_start(ap, fmt);
		int k = vsnprintf(s->text + s->n, sizeof s->text - s->n, fmt, ap);
		va_end(ap);
		if (k > 0)
			s->n = s->n + (size_t) k < sizeof s->text ? s->n + (size_t) k : sizeof s->text - 1;
	}
};
// f(Guest&) runs in the child.  Returns the transcript; any failure or crash fails the case.
template<class F> std::string runGuest(pbt::Case& c, const char* what, F f) {
	GuestShm* s = guestShm();
	s->failed = 0;
	s->failMsg[0] = s->at[0] = s->text[0] = 0;
	s->n = 0;
	fflush(stdout);
	int ef = memfd_create("guest-stderr", 0);
	pid_t pid = fork();
	if (pid < 0)
		throw std::string("fork failed");
	if (pid == 0) {
		if (ef >= 0)
			dup2(ef, 2);
		Guest g{s};
		f(g);
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0) {
	}
	char err[700];
	err[0] = 0;
	if (ef >= 0) {
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			static char all[20000];
			ssize_t k = pread(ef, all, sizeof all - 1, 0);
			all[k > 0 ? k : 0] = 0;
			const char* p = strstr(all, "SUMMARY: ");
			snprintf(err, sizeof err, "%.*s", (int) strcspn(p ? p : all, "\n"), p ? p : all);
		}
		close(ef);
	}
	if (s->failed)
		c.fail("%s", s->failMsg);
	if (WIFSIGNALED(st))
		c.fail("%s: crash, signal %d, while %s  %s", what, WTERMSIG(st), s->at, err);
	if (WEXITSTATUS(st) != 0)
		c.fail("%s: process ended with status %d while %s  %s", what, WEXITSTATUS(st), s->at, err);
	return std::string(s->text, s->n);
}
