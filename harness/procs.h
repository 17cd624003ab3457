// Real processes under a controlled scheduler: every system call that touches the watched directory
// is a scheduling point, its paths are redirected to a scratch directory, and nothing else of the
// real file system can be changed.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <dirent.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "mc.h"
#ifndef PTRACE_EVENT_STOP
#define PTRACE_EVENT_STOP 128
#endif
namespace procs {
typedef std::string S;
enum { MARK = 100000 };	// system call number used by the drivers to announce something: mark(n)
inline void mark(int n) { syscall(MARK + n); }
static char gBuf[2][PATH_MAX + 64];	// redirected paths are written here, in the child
enum State { FRESH, READY, STOPPED, DEAD };
struct Proc {
	pid_t pid = 0; State st = FRESH; int status = 0; bool inCall = false; int sig = 0; std::function<void()> body;
	long nr = -1; struct user_regs_struct regs; S path, path2; bool mutates = false, isMark = false; int fd = -1; std::set<int> fds;	// the call it is about to make; its watched descriptors
	bool changed = false; long forced = 1; bool exiting = false;	// registers to restore; result to force (if <= 0)
	mc::H hist = 0; int calls = 0; int marks = 0; int failAt = -1, failErr = 0; bool failed = false;
};
static std::vector<Proc *> gProcs; static S gRoot; static std::vector<S> *gForeign;	// scratch directory; attempts to change something else
static S gLine; static bool gTrace = false;
inline S peekStr(pid_t p, unsigned long a)
{
	S r; char b[256]; while (r.size() < 5000) { size_t n = 256 - (a & 255); struct iovec l = { b, n }, m = { (void *)a, n }; ssize_t k = process_vm_readv(p, &l, 1, &m, 1, 0); if (k <= 0) return r; for (ssize_t i = 0; i < k; i++) { if (!b[i]) return r; r += b[i]; } a += k; } return r;
}
inline S norm(S s)	// process numbers replaced by the index of the process
{
	for (size_t i = 0; i < gProcs.size(); i++) { S n = std::to_string(gProcs[i]->pid); for (size_t p = s.find(n); p != S::npos; p = s.find(n, p + 1)) s.replace(p, n.size(), "P" + std::to_string(i)); } return s;
}
static std::vector<S> gWatched;	// prefixes that are redirected into gRoot
inline bool redirect(const S &p, S &to) { for (auto &w : gWatched) if (p.compare(0, w.size(), w) == 0) { S rest = p.substr(w.size()); while (!rest.empty() && rest[0] == '/') rest.erase(0, 1); to = gRoot + "/" + rest; return true; } if (p.compare(0, gRoot.size() + 1, gRoot + "/") == 0) { to = p; return true; } return false; }
inline unsigned long &arg(struct user_regs_struct &r, int i) { switch (i) { case 0: return (unsigned long &)r.rdi; case 1: return (unsigned long &)r.rsi; case 2: return (unsigned long &)r.rdx; case 3: return (unsigned long &)r.r10; default: return (unsigned long &)r.r8; } }
// Looks at the call the process is about to make.  True if the scheduler has to know.
inline bool classify(Proc &p)
{
	ptrace(PTRACE_GETREGS, p.pid, 0, &p.regs); long nr = p.nr = p.regs.orig_rax; p.path = p.path2 = ""; p.mutates = false; p.isMark = false; p.fd = -1; int a[2] = { -1, -1 }; bool mut = false; p.changed = false; p.forced = 1;
	if (nr >= MARK && nr < MARK + 1000) { p.isMark = true; return true; }
	switch (nr) {
	case SYS_open: a[0] = 0; mut = (p.regs.rsi & (O_ACCMODE | O_CREAT | O_TRUNC)) != 0; break; case SYS_creat: a[0] = 0; mut = true; break; case SYS_openat: a[0] = 1; mut = (p.regs.rdx & (O_ACCMODE | O_CREAT | O_TRUNC)) != 0; break;
	case SYS_stat: case SYS_lstat: case SYS_access: case SYS_readlink: a[0] = 0; break; case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2: case SYS_readlinkat: a[0] = 1; break;
	case SYS_unlink: case SYS_rmdir: case SYS_mkdir: case SYS_truncate: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_mknod: case SYS_utime: case SYS_utimes: a[0] = 0; mut = true; break;
	case SYS_unlinkat: case SYS_mkdirat: case SYS_fchmodat: case SYS_fchownat: case SYS_mknodat: case SYS_utimensat: a[0] = 1; mut = true; break;
	case SYS_rename: case SYS_link: case SYS_symlink: a[0] = 0; a[1] = 1; mut = true; break; case SYS_renameat: case SYS_renameat2: case SYS_linkat: a[0] = 1; a[1] = 3; mut = true; break; case SYS_symlinkat: a[0] = 0; a[1] = 2; mut = true; break;
	case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync: case SYS_flock: case SYS_fcntl: case SYS_close: case SYS_fchmod: case SYS_read: case SYS_pread64: case SYS_fstat: case SYS_lseek: if (p.fds.count((int)p.regs.rdi)) { p.fd = p.regs.rdi; return nr != SYS_fstat && nr != SYS_lseek; } return false;
	case SYS_kill: case SYS_tkill: if ((pid_t)p.regs.rdi != p.pid) { gForeign->push_back("kill(" + std::to_string((int)p.regs.rdi) + ")"); p.forced = -EPERM; } return false;
	case SYS_tgkill: case SYS_rt_sigqueueinfo: if ((pid_t)p.regs.rdi != p.pid) { gForeign->push_back("kill"); p.forced = -EPERM; } return false;
	case SYS_fork: case SYS_vfork: case SYS_clone: case SYS_clone3: case SYS_execve: case SYS_execveat: gForeign->push_back("starting a process"); p.forced = -EPERM; return false;
	case SYS_mount: case SYS_umount2: case SYS_reboot: case SYS_chroot: case SYS_pivot_root: case SYS_setuid: case SYS_ptrace: gForeign->push_back("system call " + std::to_string(nr)); p.forced = -EPERM; return false;
	case SYS_exit_group: p.exiting = true; return true;
	}
	if (a[0] < 0) return false;
	bool watched = false; for (int i = 0; i < 2; i++) if (a[i] >= 0) {
		S s = peekStr(p.pid, arg(p.regs, a[i])), to; (i ? p.path2 : p.path) = s;
		if (redirect(s, to)) { watched = true; struct iovec l = { (void *)to.c_str(), to.size() + 1 }, m = { gBuf[i], to.size() + 1 }; if (to.size() < PATH_MAX + 60 && process_vm_writev(p.pid, &l, 1, &m, 1, 0) == (ssize_t)to.size() + 1) { arg(p.regs, a[i]) = (unsigned long)gBuf[i]; p.changed = true; } else p.forced = -ENAMETOOLONG; }
		else if (mut && s != "/dev/null" && nr != SYS_symlink) { gForeign->push_back(S("system call ") + std::to_string(nr) + " on " + s); p.forced = -EPERM; }
	}
	p.mutates = mut && watched; return watched;
}
inline void dead(Proc &p, int st) { p.st = DEAD; p.status = st; p.hist = mc::mix(p.hist, st + 77); }
// Lets the process run to its next scheduling point (stopped in front of that call) or its end.
inline void run(Proc &p)
{
	if (p.st == READY && p.inCall) {	// perform the pending call
		if (p.calls == p.failAt && !p.isMark && !p.exiting) { p.forced = -p.failErr; p.failed = true; }
		struct user_regs_struct r = p.regs; if (p.forced <= 0) { r.orig_rax = -1; } if (p.changed || p.forced <= 0) ptrace(PTRACE_SETREGS, p.pid, 0, &r);
	}
	for (;;) {
		int s = p.sig; p.sig = 0; if (ptrace(PTRACE_SYSCALL, p.pid, 0, s) && errno == ESRCH) {} int st; if (waitpid(p.pid, &st, __WALL) < 0) { if (errno == EINTR) continue; mc::fail("lost a process"); }
		if (WIFEXITED(st) || WIFSIGNALED(st)) { dead(p, st); return; }
		int sg = WSTOPSIG(st);
		if (sg == (SIGTRAP | 0x80)) {
			if (!p.inCall) { p.inCall = true; bool k = classify(p); if (k) return; if (p.forced <= 0 || p.changed) { struct user_regs_struct r = p.regs; if (p.forced <= 0) r.orig_rax = -1; ptrace(PTRACE_SETREGS, p.pid, 0, &r); } continue; }
			p.inCall = false; struct user_regs_struct r; ptrace(PTRACE_GETREGS, p.pid, 0, &r); bool set = false;
			if (p.forced <= 0) { r.rax = p.forced; set = true; } if (p.isMark) { r.rax = 0; set = true; }
			long res = r.rax; bool watched = p.isMark || p.fd >= 0 || p.path.size();
			if (p.changed || p.forced <= 0) { // the original arguments again
				r.rdi = p.regs.rdi; r.rsi = p.regs.rsi; r.rdx = p.regs.rdx; r.r10 = p.regs.r10; r.r8 = p.regs.r8; set = true;
			}
			if (set) ptrace(PTRACE_SETREGS, p.pid, 0, &r);
			if (watched) {
				bool op = p.nr == SYS_open || p.nr == SYS_openat || p.nr == SYS_creat; if (op && res >= 0 && p.changed) p.fds.insert(res); if (p.nr == SYS_close) p.fds.erase(p.fd); if (p.nr == SYS_fcntl && res > 2 && (p.regs.rsi == F_DUPFD || p.regs.rsi == F_DUPFD_CLOEXEC)) p.fds.insert(res);
				S data; if ((p.nr == SYS_read || p.nr == SYS_pread64) && res > 0) { data.resize(res); struct iovec l = { &data[0], (size_t)res }, m = { (void *)p.regs.rsi, (size_t)res }; process_vm_readv(p.pid, &l, 1, &m, 1, 0); data = norm(data); }
				if (p.changed || p.isMark || p.fd >= 0) { p.hist = mc::mix(p.hist, mc::mix(mc::mix(p.nr, op ? res >= 0 ? 1 : res : res), mc::hashStr(norm(p.path + "|" + p.path2 + "|" + data)))); p.calls++; if (p.isMark) p.marks |= 1 << (p.nr - MARK); int ix = 0; while (ix < (int)gProcs.size() && gProcs[ix] != &p) ix++; mc::note("process %d: call %ld %s %s -> %ld", ix, p.nr, norm(p.path).c_str(), norm(p.path2).c_str(), res); }
			}
			continue;
		}
		if (st >> 16 == PTRACE_EVENT_STOP) { if (sg == SIGSTOP || sg == SIGTSTP || sg == SIGTTIN || sg == SIGTTOU) { p.st = STOPPED; return; } continue; }
		if (st >> 16) continue;
		p.sig = sg; p.hist = mc::mix(p.hist, 1000 + sg);	// deliver it
	}
}
// Starts the process; it stands in front of its first scheduling point.
inline int start(std::function<void()> f)
{
	int b[2], c[2]; if (pipe(b) || pipe(c)) mc::fail("pipe"); fflush(0); Proc *p = new Proc; p->body = f; pid_t pid = fork();
	if (pid == 0) {
		close(b[1]); close(c[0]); prctl(PR_SET_PDEATHSIG, SIGKILL); prctl(PR_SET_PTRACER, getppid()); struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z); struct rlimit t = { 20, 20 }; setrlimit(RLIMIT_CPU, &t); setpgid(0, 0); for (int i = 1; i < 65; i++) { struct { void *h; unsigned long f; void *r; unsigned long m; } sa = { 0, 0, 0, 0 }; syscall(SYS_rt_sigaction, i, &sa, 0, 8); }
		int n = ::open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); close(n); if (::write(c[1], "r", 1) != 1) _exit(99); close(c[1]); char x; while (read(b[0], &x, 1) < 0 && errno == EINTR) {} close(b[0]); f(); syscall(SYS_exit_group, 98);
	}
	close(b[0]); close(c[1]); char x; if (read(c[0], &x, 1) != 1) mc::fail("a process does not start"); close(c[0]); p->pid = pid; gProcs.push_back(p);
	if (ptrace(PTRACE_SEIZE, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) mc::fail("cannot control a process: %s", strerror(errno));
	if (ptrace(PTRACE_INTERRUPT, pid, 0, 0)) mc::fail("interrupt"); int st; if (waitpid(pid, &st, __WALL) != pid) mc::fail("waitpid"); close(b[1]); p->st = READY; run(*p); return gProcs.size() - 1;
}
inline void signalTo(Proc &p, int sig) { kill(p.pid, sig); p.hist = mc::mix(p.hist, 5000 + sig); if (sig == SIGKILL || sig == 9) { int st; for (;;) { int r = waitpid(p.pid, &st, __WALL); if (r < 0 && errno != EINTR) { st = 9; break; } if (r == p.pid && (WIFSIGNALED(st) || WIFEXITED(st))) break; } dead(p, st); } if (sig == SIGCONT && p.st == STOPPED) { p.st = READY; } }
inline void cleanup() { for (Proc *p : gProcs) { if (p->st != DEAD && p->pid) { kill(p->pid, SIGKILL); int st; for (;;) { int r = waitpid(p->pid, &st, __WALL); if (r < 0 && errno != EINTR) break; if (r == p->pid && (WIFSIGNALED(st) || WIFEXITED(st))) break; } } delete p; } gProcs.clear(); }
inline void wipe(const S &d) { DIR *h = opendir(d.c_str()); if (!h) return; while (dirent *e = readdir(h)) { S n = e->d_name; if (n == "." || n == "..") continue; if (unlink((d + "/" + n).c_str())) rmdir((d + "/" + n).c_str()); } closedir(h); }
inline void initProcs(std::vector<S> watched)
{
	cleanup(); if (gRoot.empty()) { const char *e = getenv("VP_SCRATCH"); gRoot = S(e ? e : "/tmp") + "/p" + std::to_string((int)getpid()); mkdir(gRoot.c_str(), 0700); } wipe(gRoot); gWatched = watched; if (!gForeign) gForeign = new std::vector<S>; gForeign->clear();
}
inline S readFile(const S &n) { FILE *f = fopen((gRoot + "/" + n).c_str(), "r"); if (!f) return "(none)"; char b[4096]; size_t k = fread(b, 1, sizeof b, f); fclose(f); return S(b, k); }
inline void writeFile(const S &n, const S &t) { FILE *f = fopen((gRoot + "/" + n).c_str(), "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } }
inline std::set<S> files() { std::set<S> r; DIR *h = opendir(gRoot.c_str()); while (dirent *e = readdir(h)) { S n = e->d_name; if (n != "." && n != "..") r.insert(n); } closedir(h); return r; }
inline mc::H snapshot() { mc::H h = 3; for (auto &f : files()) h = mc::mix(h, mc::mix(mc::hashStr(norm(f)), mc::hashStr(norm(readFile(f))))); for (Proc *p : gProcs) h = mc::mix(h, mc::mix(p->hist, p->st)); return h; }
inline int exitStatus(Proc &p) { return WIFEXITED(p.status) ? WEXITSTATUS(p.status) : -WTERMSIG(p.status); }
}
