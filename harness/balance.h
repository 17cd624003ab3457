// C45: what is held after an operation was repeated must not grow: heap, descriptors, threads.
#pragma once
#include "mc.h"
#include <dirent.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace balance {
inline int entries(const char *d) { int n = 0; if (DIR *p = opendir(d)) { while (readdir(p)) n++; closedir(p); } return n; }
struct Held { long bytes; int fds, threads; };
inline Held held() { Held h; h.bytes = __sanitizer_get_current_allocated_bytes(); h.fds = entries("/proc/self/fd"); h.threads = entries("/proc/self/task"); return h; }
// Runs f often enough for caches to fill, then four more times.  f must not choose().
template<class F> void repeat(const char *what, F f, int warm = 3)
{
	for (int i = 0; i < warm; i++) f(); Held a = held(); for (int i = 0; i < 4; i++) f(); Held b = held();
	if (b.threads != a.threads) { for (int i = 0; i < 200 && b.threads != a.threads; i++) { struct timespec ts = { 0, 1000000 }; syscall(SYS_nanosleep, &ts, 0); b = held(); } }	// a joined thread may take a moment to vanish
	MC_CHECK(b.bytes <= a.bytes, "%s: each time %ld bytes stay allocated", what, (b.bytes - a.bytes) / 4);
	MC_CHECK(b.fds <= a.fds, "%s: four times leave %d descriptors open", what, b.fds - a.fds);
	MC_CHECK(b.threads <= a.threads, "%s: four times leave %d threads", what, b.threads - a.threads);
}
}
