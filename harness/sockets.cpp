// Drivers for datagram sockets: C43.  Real sockets of the kernel; waiting happens in virtual time.
#include "common.h"
#include "Sockets.h"
#include "Configuration.h"
#include "quiet.inc"
ConfigurationTable gConfig;
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <dirent.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <netdb.h>
#include <unistd.h>
using namespace mc;
typedef std::string S;
extern "C" void perror(const char *) {}

// ---- waiting ----
// At most one thing happens while the code under test waits: at virtual time `at` the event runs.
static int64_t gEventAt = -1; static std::function<void()> *gEvent; static const char *gWaiting = "";
static void atTime(int64_t t, std::function<void()> *f) { gEventAt = t; gEvent = f; }
static bool happen(int64_t until)	// let time pass until the event or `until` (-1: for ever); true if the event ran
{
	if (gEventAt >= 0 && (until < 0 || gEventAt < until)) { if (gEventAt > nowUs()) advance(gEventAt - nowUs()); gEventAt = -1; (*gEvent)(); return true; }
	if (until < 0) fail("%s blocks for ever", gWaiting); if (until > nowUs()) advance(until - nowUs()); return false;
}
extern "C" int __real_poll(struct pollfd *, nfds_t, int); extern "C" int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
static bool anyEvents(struct pollfd *f, nfds_t n) { return __real_poll(f, n, 0) != 0; }
static int vpoll(struct pollfd *f, nfds_t n, int64_t us)
{
	int64_t until = us < 0 ? -1 : nowUs() + us; for (;;) { int r = __real_poll(f, n, 0); if (r) return r; if (us == 0 || (until >= 0 && nowUs() >= until)) return 0; if (!happen(until)) return __real_poll(f, n, 0); }
}
extern "C" int __wrap_poll(struct pollfd *f, nfds_t n, int ms) { return vpoll(f, n, ms < 0 ? -1 : ms * 1000LL); }
extern "C" int __wrap___poll_chk(struct pollfd *f, nfds_t n, int ms, size_t) { return vpoll(f, n, ms < 0 ? -1 : ms * 1000LL); }
extern "C" int __wrap_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *) { return vpoll(f, n, t ? t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000 : -1); }
extern "C" int __wrap___ppoll_chk(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *, size_t) { return vpoll(f, n, t ? t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000 : -1); }
extern "C" int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	int64_t us = tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1, until = us < 0 ? -1 : nowUs() + us;
	for (;;) { fd_set R, W, X; if (r) R = *r; if (w) W = *w; if (e) X = *e; struct timeval z = { 0, 0 }; int k = __real_select(n, r ? &R : 0, w ? &W : 0, e ? &X : 0, &z); bool last = us == 0 || (until >= 0 && nowUs() >= until); if (k || last) { if (r) *r = R; if (w) *w = W; if (e) *e = X; return k; } happen(until); }
}
static int gCallErr;	// errno for the next receive / send / socket call by name
static const char *gFailCall = ""; static int gFailAt, gFailErr, gCalls; static bool gHit;
static bool strike(const char *c) { if (strcmp(c, gFailCall) || gCalls++ != gFailAt) return false; gHit = true; errno = gFailErr; return true; }
static bool canRead(int fd, int flags)	// true if a receive may proceed; otherwise errno is set
{
	struct pollfd p = { fd, POLLIN, 0 }; if (fd < 0 || __real_poll(&p, 1, 0) != 0) return true;
	if ((flags & MSG_DONTWAIT) || (fcntl(fd, F_GETFL) & O_NONBLOCK)) return true;
	struct timeval tv = { 0, 0 }; socklen_t l = sizeof tv; getsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, &l); int64_t us = tv.tv_sec * 1000000LL + tv.tv_usec;
	if (vpoll(&p, 1, us ? us : -1)) return true; errno = EAGAIN; return false;
}
extern "C" ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *); extern "C" ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { if (strike("recv") || !canRead(fd, fl)) return -1; return __real_recvfrom(fd, b, n, fl, a, l); }
extern "C" ssize_t __wrap___recvfrom_chk(int fd, void *b, size_t n, size_t, int fl, struct sockaddr *a, socklen_t *l) { return __wrap_recvfrom(fd, b, n, fl, a, l); }
extern "C" ssize_t __real_recvmsg(int, struct msghdr *, int); extern "C" ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int fl) { if (strike("recv") || !canRead(fd, fl)) return -1; return __real_recvmsg(fd, m, fl); }
extern "C" ssize_t __real_recv(int, void *, size_t, int); extern "C" ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { if (strike("recv") || !canRead(fd, fl)) return -1; return __real_recv(fd, b, n, fl); }
extern "C" int __real_socket(int, int, int); extern "C" int __wrap_socket(int a, int b, int c) { if (strike("socket")) return -1; return __real_socket(a, b, c); }
static std::vector<unsigned short> *gPorts;	// ports in use; the kernel may give one of them again where it is allowed to
extern "C" int __real_bind(int, const struct sockaddr *, socklen_t); extern "C" int __wrap_bind(int f, const struct sockaddr *a, socklen_t l)
{
	if (strike("bind")) return -1; if (a->sa_family == AF_INET && !((sockaddr_in *)a)->sin_port && gPorts) for (unsigned short p : *gPorts) { sockaddr_in b = *(sockaddr_in *)a; b.sin_port = htons(p); if (!__real_bind(f, (sockaddr *)&b, l)) return 0; }
	return __real_bind(f, a, l);
}
extern "C" ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t); extern "C" ssize_t __wrap_sendto(int f, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { if (strike("send")) return -1; return __real_sendto(f, b, n, fl, a, l); }

// ---- names ----
// A resolver with one static answer buffer, as the real one has.
static struct hostent gHost; static char *gAddrs[2]; static in_addr gAddr;
static bool modelResolve(const char *n, in_addr *a)
{
	S s(n); if (s == "localhost") { inet_aton("127.0.0.1", a); return true; } if (s == "two.example") { inet_aton("10.1.2.3", a); return true; }
	return inet_aton(n, a) != 0 && s.find_first_not_of("0123456789.") == S::npos;
}
static struct hostent *answer(struct hostent *h, in_addr *buf, char **list, const char *n) { in_addr a; if (!modelResolve(n, &a)) return 0; *buf = a; list[0] = (char *)buf; list[1] = 0; h->h_name = (char *)"x"; h->h_aliases = 0; h->h_addrtype = AF_INET; h->h_length = 4; h->h_addr_list = list; return h; }
extern "C" struct hostent *gethostbyname(const char *n) { h_errno = HOST_NOT_FOUND; return answer(&gHost, &gAddr, gAddrs, n); }
extern "C" int gethostbyname2_r(const char *n, int, struct hostent *h, char *b, size_t, struct hostent **r, int *e) { struct T { in_addr a; char *l[2]; } *t = (T *)(((uintptr_t)b + 7) & ~7ul); *r = answer(h, &t->a, t->l, n); if (!*r) *e = HOST_NOT_FOUND; return *r ? 0 : strcmp(n, "gone") ? 0 : HOST_NOT_FOUND; }
extern "C" int gethostbyname_r(const char *n, struct hostent *h, char *b, size_t z, struct hostent **r, int *e) { return gethostbyname2_r(n, AF_INET, h, b, z, r, e); }
extern "C" int getaddrinfo(const char *n, const char *, const struct addrinfo *, struct addrinfo **r) { in_addr a; if (!n || !modelResolve(n, &a)) return EAI_NONAME; addrinfo *i = (addrinfo *)calloc(1, sizeof *i); sockaddr_in *s = (sockaddr_in *)calloc(1, sizeof *s); s->sin_family = AF_INET; s->sin_addr = a; i->ai_family = AF_INET; i->ai_addr = (sockaddr *)s; i->ai_addrlen = sizeof *s; *r = i; return 0; }
extern "C" void freeaddrinfo(struct addrinfo *i) { free(i->ai_addr); free(i); }

// ---- helpers ----
static S gDir; static int gBase;	// scratch directory; descriptors open before the scenario
static std::set<int> fds() { std::set<int> r; for (int f = 0; f < 100; f++) if (fcntl(f, F_GETFD) != -1) r.insert(f); return r; }
static std::set<int> gFds0;
static void cleanDir(bool remove) { if (gDir.empty()) return; DIR *d = opendir(gDir.c_str()); if (d) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.' || strlen(e->d_name) > 2) unlink((gDir + "/" + e->d_name).c_str()); closedir(d); } if (remove) { rmdir(gDir.c_str()); gDir = ""; } }
static void fresh()
{
	if (gDir.empty()) { char b[64]; const char *e = getenv("VP_SCRATCH"); snprintf(b, sizeof b, "%s/%d", e ? e : "/tmp", (int)getpid()); mkdir(b, 0700); gDir = b; static bool once; if (!once) { once = true; atexit([]() { cleanDir(true); }); } }
	cleanDir(false); gEventAt = -1; gFailCall = ""; gCalls = 0; gHit = false; gErrors = 0; gWaiting = "a call"; static std::set<int> *base; if (!base) base = new std::set<int>(fds()); for (int f : fds()) if (!base->count(f)) close(f); gFds0 = fds();
}
static void noLeak(const char *what) { std::set<int> f = fds(); if (f == gFds0) return; for (int x : f) if (!gFds0.count(x)) fail("%s leaves a descriptor open", what); fail("%s closes a descriptor of somebody else", what); }
static void loop(sockaddr_in &a, unsigned short p) { memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); }
static S msg(int n) { char b[40]; snprintf(b, sizeof b, "m%d", n); S s(b); s += '\0'; s += "\xff\x80tail"; return s; }
// Reads with guards around the buffer; -2 stands for an exception.
static int rd(DatagramSocket *s, S &out, long timeout = -1)
{
	static char buf[MAX_UDP_LENGTH + 64]; memset(buf, 0x5a, sizeof buf); int r;
	try { r = timeout < 0 ? s->read(buf + 32) : s->read(buf + 32, (unsigned)timeout); } catch (SocketError &) { return -2; }
	MC_CHECK(r >= -1 && r <= MAX_UDP_LENGTH, "read returns %d", r); out = r > 0 ? S(buf + 32, r) : S();
	for (int i = 0; i < 32; i++) MC_CHECK(buf[i] == 0x5a, "read writes in front of the buffer"); for (int i = 32 + std::max(r, 0); i < (int)sizeof buf; i++) MC_CHECK(buf[i] == 0x5a, "read writes past the %d bytes it reports", r); return r;
}

// ---- delivery ----
struct Node { DatagramSocket *s; std::deque<std::pair<int, S>> q; int src = -1, dest = -1; bool block = false; };
static void delivery(bool udp)
{
	fresh(); Node n[3]; S path[3]; std::vector<std::unique_ptr<DatagramSocket>> own; gWaiting = "read";
	for (int i = 0; i < 3; i++) {
		if (udp) own.emplace_back(new UDPSocket(0)); else { path[i] = gDir + "/" + "longname_of_a_socket" + std::to_string(i) + S(i == 1 ? 30 : 0, 'x'); own.emplace_back(new UDDSocket(path[i].c_str())); }
		n[i].s = own[i].get();
	}
	auto dest = [&](int from, int to) { if (udp) ((UDPSocket *)n[from].s)->destination(((UDPSocket *)n[to].s)->port(), from == 2 ? "localhost" : "127.0.0.1"); else ((UDDSocket *)n[from].s)->destination(path[to].c_str()); n[from].dest = to; };
	dest(0, 1); dest(1, 0); dest(2, 0); for (auto &x : n) x.s->nonblocking();
	int cnt = 0;
	for (int s = 0; s < depth(); s++) {
		int op = choose(13, "op"); int r, a = -1; S m, g; const char *what = "";
		auto sent = [&](int from, int to, size_t len) { MC_CHECK(r == (int)len, "%s returns %d for %zu bytes", what, r, len); n[to].q.push_back({ from, m.substr(0, 1500) }); };
		if (op < 3) { what = "write"; m = msg(cnt++); r = n[op].s->write(m.data(), m.size()); sent(op, n[op].dest, m.size()); }
		else if (op < 5) { what = "write of a text"; m = "text" + std::to_string(cnt++); m += '\0'; r = n[op - 3].s->write(m.c_str()); sent(op - 3, n[op - 3].dest, m.size()); }
		else if (op < 7) { what = "writeBack"; a = op - 5; m = msg(cnt++); bool text = op == 6; if (text) { m = "back" + std::to_string(cnt); m += '\0'; r = n[a].s->writeBack(m.c_str()); } else r = n[a].s->writeBack(m.data(), m.size()); if (n[a].src >= 0) sent(a, n[a].src, m.size()); else MC_CHECK(r == -1, "writeBack before anything was read returns %d", r); }
		else if (op == 7) { what = "send"; m = "x" + std::to_string(cnt++); m += '\0'; if (udp) { sockaddr_in A; loop(A, ((UDPSocket *)n[1].s)->port()); r = n[2].s->send((sockaddr *)&A, m.c_str()); } else { sockaddr_un A; memset(&A, 0, sizeof A); A.sun_family = AF_UNIX; strcpy(A.sun_path, path[1].c_str()); r = n[2].s->send((sockaddr *)&A, m.data(), m.size()); } sent(2, 1, m.size()); }
		else if (op < 11) { what = op == 10 ? "timed read" : "read"; a = op == 10 ? 0 : op - 8; int64_t t = nowUs(); r = op == 10 ? rd(n[0].s, g, 300) : rd(n[a].s, g);
			if (n[a].q.empty()) { MC_CHECK(r == -1, "%s of socket %d returns %d with nothing sent", what, a, r); if (op == 10) MC_CHECK(nowUs() - t == 300000, "a timed read of 300 ms takes %ld us", (long)(nowUs() - t)); else MC_CHECK(nowUs() == t, "a non-blocking read waits"); }
			else { auto f = n[a].q.front(); n[a].q.pop_front(); MC_CHECK(r == (int)f.second.size() && g == f.second, "%s of socket %d returns %d '%s', expected '%s'", what, a, r, show(g).c_str(), show(f.second).c_str()); n[a].src = f.first; MC_CHECK(nowUs() == t, "a read of a waiting datagram waits");
				if (udp) { const sockaddr_in *p = ((UDPSocket *)n[a].s)->source(); MC_CHECK(p->sin_family == AF_INET && ntohs(p->sin_port) == ((UDPSocket *)n[f.first].s)->port() && p->sin_addr.s_addr == htonl(INADDR_LOOPBACK), "source() does not name the sender"); } else MC_CHECK(((UDDSocket *)n[a].s)->source()->sun_family == AF_UNIX && path[f.first] == ((UDDSocket *)n[a].s)->source()->sun_path, "source() is '%s' instead of the sender", ((UDDSocket *)n[a].s)->source()->sun_path); } }
		else if (op == 11) dest(0, n[0].dest == 1 ? 2 : 1);
		else { what = "empty datagram"; m = ""; r = n[1].s->write("", 0); sent(1, 0, 0); }
		H h = 0; for (auto &x : n) { h = mix(h, mix(x.src, x.dest)); for (auto &q : x.q) h = mix(h, mix(q.first, hashStr(q.second))); } state(mix(h, mix(cnt, nowUs())), depth() - s - 1);
	}
	S g; for (int i = 0; i < 3; i++) { for (auto &q : n[i].q) { int r = rd(n[i].s, g); MC_CHECK(r == (int)q.second.size() && g == q.second, "socket %d: at the end '%s' is read instead of '%s'", i, show(g).c_str(), show(q.second).c_str()); } MC_CHECK(rd(n[i].s, g) == -1, "socket %d received more than was sent", i); }
	own.clear(); noLeak("using sockets"); outcome(std::to_string(cnt));
}
MC_SCENARIO(C43, udp_delivery, SEQ, "every sequence of sending, answering, redirecting and reading between three UDP sockets", o.quickDepth = 5, o.thoroughDepth = 6) { delivery(true); }
MC_SCENARIO(C43, unix_delivery, SEQ, "every sequence of sending, answering, redirecting and reading between three Unix sockets", o.quickDepth = 5, o.thoroughDepth = 6) { delivery(false); }
MC_SCENARIO(C43, sizes, SEQ, "datagrams of every length to 1510 and around the largest possible")
{
	fresh(); bool udp = choose(2, "kind") == 0; S pa = gDir + "/a", pb = gDir + "/b"; uint64_t n = 0; gWaiting = "read";
	{
	std::unique_ptr<DatagramSocket> a(udp ? (DatagramSocket *)new UDPSocket(0) : new UDDSocket(pa.c_str())), b;
	if (udp) b.reset(new UDPSocket(0, "127.0.0.1", ((UDPSocket *)a.get())->port())); else b.reset(new UDDSocket(pb.c_str(), pa.c_str()));
	std::vector<int> len; for (int i = 0; i <= 1510; i++) len.push_back(i); for (int i : { 2000, 4096, 9000, 20000, 65507 }) len.push_back(i); if (udp) { len.push_back(65508); len.push_back(70000); }
	int how = choose(3, "call");
	for (int L : len) {
		S m(L, 0); for (int i = 0; i < L; i++) m[i] = how == 1 ? 1 + i % 255 : (i * 7 + L) % 256; int r; S g; if (how == 1) m += '\0'; int w = m.size();
		if (how == 0) r = b->write(m.data(), L); else if (how == 1) r = b->write(m.c_str()); else { b->write("q", 1); rd(a.get(), g); r = a->writeBack(m.data(), L); }
		DatagramSocket *to = how == 2 ? b.get() : a.get(); bool big = udp && w > 65507; MC_CHECK(r == (big ? -1 : w), "sending %d bytes returns %d", w, r);
		if (big) { to->nonblocking(); MC_CHECK(rd(to, g) == -1, "a datagram that is too long arrives"); to->blocking(); continue; }
		r = choose(1) ? 0 : rd(to, g); MC_CHECK(r == std::min(w, 1500) && g == m.substr(0, 1500), "of %d bytes sent %d arrive", w, r); n++;
	}
	}
	noLeak("sending"); cases(n); outcome(std::to_string(n));
}
MC_SCENARIO(C43, waiting, SEQ, "timed, blocking and non-blocking reads with data arriving before, during and after every time-out")
{
	fresh(); bool udp = choose(2, "kind") == 0; S pa = gDir + "/a", pb = gDir + "/b"; static const unsigned TO[] = { 0, 1, 10, 999, 1000, 1001, 1999, 60000, 86400000u, INT_MAX, INT_MAX + 1u, UINT_MAX }; unsigned to = TO[choose(12, "time-out")];
	int mode = choose(4, "mode"), when = choose(6, "arrival"); bool timed = choose(2, "timed"); if (!timed && to != 1000) skip();
	{
	std::unique_ptr<DatagramSocket> a(udp ? (DatagramSocket *)new UDPSocket(0) : new UDDSocket(pa.c_str())), b;
	if (udp) b.reset(new UDPSocket(0, "127.0.0.1", ((UDPSocket *)a.get())->port())); else b.reset(new UDDSocket(pb.c_str(), pa.c_str()));
	if (mode == 1) a->nonblocking(); if (mode == 2) { a->nonblocking(); a->blocking(); } if (mode == 3) { a->blocking(); a->nonblocking(); a->nonblocking(); } bool nb = mode & 1;
	int64_t t = to * 1000LL, at = when == 0 ? 0 : when == 1 ? t / 2 : when == 2 ? std::max<int64_t>(0, t - 1) : when == 3 ? t + 1000 : when == 4 ? 500 : -1;
	std::function<void()> send = [&]() { b->write("data", 4); }; int64_t t0 = nowUs(); gWaiting = timed ? "a timed read" : "a read"; if (at == 0) send(); else if (at > 0) atTime(t0 + at, &send);
	if (!timed && !nb && at < 0) skip();
	S g; int r = rd(a.get(), g, timed ? (long)to : -1); int64_t el = nowUs() - t0;
	if (at == 0 || (timed && at > 0 && at < t) || (!timed && !nb)) { MC_CHECK(r == 4 && g == "data", "%s with data arriving after %ld us returns %d", gWaiting, (long)at, r); MC_CHECK(el >= at && el <= at + 2000, "data that arrives after %ld us is returned after %ld us", (long)at, (long)el); }
	else if (timed) { MC_CHECK(r == -1, "a read of %u ms returns %d with nothing sent", to, r); MC_CHECK(el >= t - 1 && el <= t + 2000, "a read of %u ms gives up after %ld us", to, (long)el); }
	else { MC_CHECK(r == -1 && el == 0, "a non-blocking read returns %d after %ld us", r, (long)el); }
	gEventAt = -1;
	}
	noLeak("reading"); outcome(std::to_string(timed));
}
MC_SCENARIO(C43, many_descriptors, SEQFORK, "sockets in a process with many descriptors")
{
	fresh(); struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_max < 3000) skip(); rl.rlim_cur = 3000; setrlimit(RLIMIT_NOFILE, &rl); static const int N[] = { 900, 1022, 1023, 1024, 1025, 1088, 2040, 2500 }; int n = N[choose(8, "descriptors")]; bool udp = choose(2, "kind") == 0, data = choose(2, "data");
	int z = open("/dev/null", O_RDONLY); while (dup(z) < n) {} S p = gDir + "/p"; gWaiting = "read";
	std::unique_ptr<DatagramSocket> a(udp ? (DatagramSocket *)new UDPSocket(0) : new UDDSocket(p.c_str())), b(udp ? (DatagramSocket *)new UDPSocket(0, "127.0.0.1", ((UDPSocket *)a.get())->port()) : new UDDSocket((p + "2").c_str(), p.c_str())); if (data) b->write("abc", 3); int64_t t = nowUs(); S g; int r = rd(a.get(), g, 50);
	if (data) MC_CHECK(r == 3 && g == "abc" && nowUs() == t, "with more than %d descriptors a timed read returns %d", n, r); else MC_CHECK(r == -1 && nowUs() - t == 50000, "with more than %d descriptors a timed read returns %d after %ld us", n, r, (long)(nowUs() - t)); b->write("abc", 3); r = rd(a.get(), g); MC_CHECK(r == 3, "read returns %d", r);
	a.reset(); b.reset(); cleanDir(true); outcome(data ? "data" : "none");
}
MC_SCENARIO(C43, few_descriptors, SEQFORK, "sockets in a process that has closed its standard input, output or error")
{
	fresh(); int mask = 1 + choose(7, "closed"); bool udp = choose(2, "kind") == 0, again = choose(2, "reopened"); S p = gDir + "/p"; for (int i = 0; i < 3; i++) if (mask >> i & 1) close(i); int lo = mask & 1 ? 0 : mask & 2 ? 1 : 2;
	gWaiting = "read"; { std::unique_ptr<DatagramSocket> a(udp ? (DatagramSocket *)new UDPSocket(0) : new UDDSocket(p.c_str())), b(udp ? (DatagramSocket *)new UDPSocket(0, "127.0.0.1", ((UDPSocket *)a.get())->port()) : new UDDSocket((p + "2").c_str(), p.c_str()));
	struct stat st; MC_CHECK(!fstat(lo, &st) && S_ISSOCK(st.st_mode), "the socket does not have descriptor %d", lo);
	MC_CHECK(b->write("abc", 3) == 3, "write"); S g; int r = rd(a.get(), g, 50); MC_CHECK(r == 3 && g == "abc", "a socket on descriptor %d reads %d bytes", lo, r); r = rd(a.get(), g, 20); MC_CHECK(r == -1, "an idle socket reads %d", r);
	if (again) { if (udp) ((UDPSocket *)a.get())->open(0); else ((UDDSocket *)a.get())->open(p.c_str()); MC_CHECK(!fstat(lo, &st) && S_ISSOCK(st.st_mode), "opening again does not give back descriptor %d", lo); }
	a->close(); MC_CHECK(fstat(lo, &st), "closing leaves descriptor %d open", lo); int f = open("/dev/null", O_RDONLY); MC_CHECK(f == lo, "a file has descriptor %d, expected %d", f, lo);
	a->close(); MC_CHECK(!fstat(lo, &st), "closing a socket twice closes a descriptor of somebody else"); a.reset(); MC_CHECK(!fstat(lo, &st), "destroying a closed socket closes a descriptor of somebody else"); }
	cleanDir(true); outcome(std::to_string(lo));
}
MC_SCENARIO(C43, unnamed_sender, SEQ, "an answer to a sender without an address goes to nobody else")
{
	fresh(); S p = gDir + "/a", q = gDir + "/b"; { UDDSocket a(p.c_str()), b(q.c_str(), p.c_str()); a.nonblocking(); b.nonblocking(); int raw = socket(AF_UNIX, SOCK_DGRAM, 0); S g; sockaddr_un A; memset(&A, 0, sizeof A); A.sun_family = AF_UNIX; strcpy(A.sun_path, p.c_str());
	bool last = false; for (int i = 0; i < 3; i++) { if (choose(2, "sender")) { sendto(raw, "u", 1, 0, (sockaddr *)&A, sizeof A); MC_CHECK(rd(&a, g) == 1 && g == "u", "nothing arrives"); last = false; } else { b.write("bb", 2); MC_CHECK(rd(&a, g) == 2, "nothing arrives"); last = true; } int r = a.writeBack("back", 4); if (last) { MC_CHECK(r == 4 && rd(&b, g) == 4 && g == "back", "the answer does not arrive"); } else { MC_CHECK(rd(&b, g) == -1, "the answer to a sender without a name goes to an earlier sender"); MC_CHECK(r == -1, "an answer to a sender without a name is reported as sent"); } if (choose(2, "empty read")) MC_CHECK(rd(&a, g) == -1, "something arrives"); if (last && choose(2, "again")) { a.writeBack("2", 1); MC_CHECK(rd(&b, g) == 1 && g == "2", "after an empty read an answer does not reach the last sender"); } }
	close(raw); } noLeak("answering"); outcome("ok");
}

// ---- descriptors ----
MC_SCENARIO(C43, lifecycle, SEQ, "every sequence of opening, reopening, closing, using and destroying sockets next to other descriptors", o.quickDepth = 5, o.thoroughDepth = 6)
{
	fresh(); alignas(16) char store[2][sizeof(UDDSocket) + sizeof(UDPSocket)]; memset(store, choose(2, "memory") ? 0 : 0x5, sizeof store); bool udp = choose(2, "kind") == 0; S p = gDir + "/s"; DatagramSocket *s = 0; std::set<int> mine; bool isOpen = false;
	auto check = [&](const char *what) { std::set<int> f = fds(); for (int x : gFds0) MC_CHECK(f.count(x), "%s closes a descriptor of somebody else", what); for (int x : mine) MC_CHECK(f.count(x), "%s closes a descriptor of somebody else", what); size_t exp = gFds0.size() + mine.size() + (isOpen ? 1 : 0); MC_CHECK(f.size() == exp, "after %s %zu descriptors are open, expected %zu", what, f.size(), exp); };
	for (int i = 0; i < depth(); i++) {
		const char *what = "";
		switch (choose(7, "op")) {
		case 0: what = "construction"; if (s) s->~DatagramSocket(); if (udp) s = new (store[0]) UDPSocket(0); else s = new (store[0]) UDDSocket(p.c_str()); isOpen = true; break;
		case 1: what = "construction without a socket"; if (udp) continue; if (s) s->~DatagramSocket(); s = new (store[0]) UDDSocket(); isOpen = false; break;
		case 2: what = "open"; if (!s) continue; if (udp) ((UDPSocket *)s)->open(0); else ((UDDSocket *)s)->open(p.c_str()); isOpen = true; break;
		case 3: what = "close"; if (!s) continue; s->close(); isOpen = false; break;
		case 4: what = "destruction"; if (!s) continue; s->~DatagramSocket(); s = 0; isOpen = false; break;
		case 5: what = "opening a file"; mine.insert(open("/dev/null", O_RDONLY)); break;
		case 6: { what = "use"; if (!s) continue; S g; if (isOpen) { s->nonblocking(); int r = rd(s, g); MC_CHECK(r == -1, "read of an idle socket returns %d", r); sockaddr_in A; if (udp) { loop(A, ((UDPSocket *)s)->port()); s->send((sockaddr *)&A, "x"); MC_CHECK(rd(s, g) == 2, "a socket does not reach itself"); } } else { MC_CHECK(s->write("x", 1) == -1, "writing to a closed socket succeeds"); int r = rd(s, g); MC_CHECK(r == -1 || r == -2, "reading a closed socket returns %d", r); } break; }
		}
		check(what); state(mix(mix(isOpen, s != 0), mine.size()), depth() - i - 1);
	}
	if (s) s->~DatagramSocket(); isOpen = false; check("the last destruction"); for (int f : mine) close(f); outcome(isOpen ? "open" : "closed");
}
MC_SCENARIO(C43, failures, SEQ, "each system call failing at each point")
{
	fresh(); static const char *C[] = { "socket", "bind", "recv", "send" }; static const int E[4][3] = { { EMFILE, ENOMEM, EACCES }, { EADDRINUSE, EACCES, EINVAL }, { ENOMEM, ECONNREFUSED, EBADF }, { ENOBUFS, EMSGSIZE, ECONNREFUSED } }; int c = choose(4, "call"); gFailCall = C[c]; gFailAt = choose(3, "at"); gFailErr = E[c][choose(3, "error")]; bool udp = choose(2, "kind") == 0; S p = gDir + "/a"; gWaiting = "read"; int failed = 0;
	{
	std::unique_ptr<DatagramSocket> s[3]; for (int i = 0; i < 3; i++) { bool h = gHit; try { if (udp) s[i].reset(new UDPSocket(0)); else s[i].reset(new UDDSocket((p + std::to_string(i)).c_str())); MC_CHECK(h == gHit, "a socket is constructed although %s failed", gFailCall); } catch (SocketError &) { failed++; MC_CHECK(h != gHit, "a constructor throws without a failure"); } }
	MC_CHECK(failed == (gHit ? 1 : 0), "%d constructors throw", failed); int a = s[0] ? 0 : 1, b = s[2] ? 2 : 1; if (udp) ((UDPSocket *)s[b].get())->destination(((UDPSocket *)s[a].get())->port(), "127.0.0.1"); else ((UDDSocket *)s[b].get())->destination((p + std::to_string(a)).c_str());
	std::deque<S> q; for (int i = 0; i < 3; i++) { S m = msg(i); bool h = gHit; int r = s[b]->write(m.data(), m.size()); if (h == gHit) { MC_CHECK(r == (int)m.size(), "write returns %d", r); q.push_back(m); } else MC_CHECK(r == -1, "a failed write returns %d", r); }
	S g; for (int i = 0; i < 3 && !q.empty(); i++) { bool h = gHit; int r = rd(s[a].get(), g, choose(1) ? 0 : 5); if (h != gHit) { MC_CHECK(r == -2, "a failed read returns %d instead of throwing", r); continue; } MC_CHECK(r == (int)q.front().size() && g == q.front(), "read returns %d", r); q.pop_front(); }
	}
	noLeak("a failure"); outcome(gHit ? "hit" : "none");
}
MC_SCENARIO(C43, paths, SEQ, "Unix socket paths of every length to 300, also where something lies already")
{
	fresh(); int lay = choose(3, "at the path"); uint64_t n = 0; S g; gWaiting = "read";
	for (int L = gDir.size() + 2; L <= 300; L++) {
		S p = gDir + "/" + S(L - gDir.size() - 1, 'p'); std::unique_ptr<UDDSocket> old; bool fits = L <= 107; if (fits && lay == 1) old.reset(new UDDSocket(p.c_str())); if (fits && lay == 2) { old.reset(new UDDSocket(p.c_str())); old.reset(); }
		{ std::unique_ptr<UDDSocket> a; bool thrown = false; try { a.reset(new UDDSocket(p.c_str())); } catch (SocketError &) { thrown = true; } n++;
		if (L > 108) MC_CHECK(thrown, "a path of %d characters is accepted", L); if (fits) MC_CHECK(!thrown, "a path of %d characters is refused", L);
		S q = gDir + "/q"; bool t2 = false; std::unique_ptr<UDDSocket> b; try { b.reset(new UDDSocket(q.c_str(), p.c_str())); } catch (SocketError &) { t2 = true; } if (fits) { MC_CHECK(!t2, "a destination of %d characters is refused", L); MC_CHECK(b->write("hello") == 6 && rd(a.get(), g) == 6 && g == S("hello", 6), "a path of %d characters is not reached", L); MC_CHECK(a->writeBack("back", 4) == 4 && rd(b.get(), g) == 4, "no answer from a path of %d characters", L); if (old) { old->nonblocking(); MC_CHECK(rd(old.get(), g) == -1, "the replaced socket still receives"); } } else if (b && L > 108) MC_CHECK(b->write("x", 1) == -1, "a destination of %d characters is reached", L); }
		old.reset(); unlink(p.c_str());
	}
	noLeak("opening"); cases(n); outcome(std::to_string(n));
}

// ---- names ----
static bool refHost(const S &h, uint32_t &ip) { in_addr a; if (!modelResolve(h.c_str(), &a)) return false; ip = a.s_addr; return true; }
static void one(const S &host, bool hasPort, const S &port, const char *text)
{
	sockaddr_in a; memset(&a, 0x77, sizeof a); S keep((char *)&a, sizeof a); uint32_t ip; bool got = resolveAddress(&a, text); long p = -1; if (hasPort && !port.empty() && port.size() < 9 && port.find_first_not_of("0123456789") == S::npos) { p = atol(port.c_str()); if (p > 65535) p = -1; }
	bool exp = refHost(host, ip) && p >= 0; MC_CHECK(got == exp, "'%s' is %s", show(text).c_str(), got ? "accepted" : "refused"); if (got) MC_CHECK(a.sin_family == AF_INET && a.sin_addr.s_addr == ip && a.sin_port == htons(p), "'%s' resolves to %s port %d", show(text).c_str(), inet_ntoa(a.sin_addr), ntohs(a.sin_port));
}
static uint64_t live();
extern "C" size_t __sanitizer_get_current_allocated_bytes();
MC_SCENARIO(C43, names, SEQ, "host:port texts: all short strings, all ports, hosts known and unknown")
{
	fresh(); int part = choose(3, "part"); uint64_t n = 0; const char *H[] = { "localhost", "127.0.0.1", "10.255.0.1", "255.255.255.255", "two.example", "unknown", "gone", "", "256.1.1.1", " " }; size_t before = 0;
	for (int pass = 0; pass < 2; pass++) { n = 0; if (pass) before = __sanitizer_get_current_allocated_bytes();
	if (part == 0) for (auto h : H) { for (const char *p : { "0", "1", "80", "5061", "65535", "65536", "70000", "99999", "131072", "-1", "+80", " 80", "80 ", "80x", "x80", "0x50", "", "8:0", ":80", "4294967376", "18446744073709551696", "080", "00080", "1e3", "80.5" }) { if (!strncmp(p, "+", 1) || p[0] == ' ') continue; S t = S(h) + ":" + p; one(h, true, p, t.c_str()); n++; } one(h, false, "", h); n++; }
	else if (part == 1) { const char *A = "1:09 a."; for (int L = 0; L <= (thorough() ? 6 : 5); L++) { std::vector<int> d(L, 0); for (;;) { S t; for (int x : d) t += A[x]; size_t c = t.find(':'); S h = t.substr(0, c), p = c == S::npos ? "" : t.substr(c + 1); if (p.empty() || p[0] != ' ') { one(h, c != S::npos, p, t.c_str()); n++; } int i = L - 1; while (i >= 0 && ++d[i] == 7) d[i--] = 0; if (i < 0) break; } } }
	else for (int p = 0; p <= 66000; p++) { S t = "10.1.2.3:" + std::to_string(p); one("10.1.2.3", true, std::to_string(p), t.c_str()); n++; sockaddr_in a; if (p < 65536) { MC_CHECK(resolveAddress(&a, "two.example", p) && a.sin_port == htons(p) && a.sin_family == AF_INET && a.sin_addr.s_addr == inet_addr("10.1.2.3"), "port %d is resolved wrongly", p); } }
	}
	size_t after = __sanitizer_get_current_allocated_bytes(); MC_CHECK(after <= before + 4096, "%zu bytes are lost resolving %ld addresses", after - before, (long)n);
	cases(n); outcome(std::to_string(n));
}
MC_SCENARIO(C43, bad_destination, SEQ, "a destination that cannot be resolved leaves the former one")
{
	fresh(); { UDPSocket a(0), b(0, "127.0.0.1", a.port()); a.nonblocking(); S g; int k = choose(3, "name"); b.destination(a.port(), k == 0 ? "unknown" : k == 1 ? "gone" : ""); b.write("x", 1); int r = rd(&a, g); MC_CHECK(r == 1 || r == -1, "read returns %d", r); MC_CHECK(r == 1, "after a destination that cannot be resolved the former one is not reached"); MC_CHECK(a.port() != b.port() && a.port() && b.port(), "ports"); } noLeak("resolving"); outcome("ok");
}
MC_SCENARIO(C43, ports, SEQ, "sockets that get their port from the system, next to others on given ports")
{
	fresh(); std::vector<unsigned short> used; gPorts = &used; struct Off { ~Off() { gPorts = 0; } } off;
	{ UDPSocket a(0); used.push_back(a.port()); UDPSocket b(0); used.push_back(b.port()); MC_CHECK(a.port() != b.port(), "two sockets get the same port from the system"); std::unique_ptr<UDPSocket> c; unsigned short p = 0; if (choose(2, "third") == 0) c.reset(new UDPSocket(0)); else { { UDPSocket t(0); p = t.port(); } c.reset(new UDPSocket(p)); MC_CHECK(c->port() == p, "a socket opened on port %d is on port %d", p, c->port()); }
	MC_CHECK(c->port() != a.port() && c->port() != b.port(), "two sockets get the same port from the system"); if (choose(2, "reopen")) { unsigned short o = a.port(); a.open(0); used[0] = a.port(); MC_CHECK(a.port() != b.port() && a.port() != c->port(), "reopening gives a port that is in use"); (void)o; }
	UDPSocket *s[] = { &a, &b, c.get() }; S g; for (auto x : s) x->nonblocking(); for (int i = 0; i < 3; i++) { s[i]->destination(s[(i + 1) % 3]->port(), "127.0.0.1"); S m = msg(i); s[i]->write(m.data(), m.size()); } for (int i = 0; i < 3; i++) MC_CHECK(rd(s[(i + 1) % 3], g) == (int)msg(i).size() && g == msg(i) && rd(s[(i + 1) % 3], g) == -1, "a datagram goes astray"); }
	noLeak("opening"); outcome("ok");
}

// ================================================================ C45: nothing is held back
#include "balance.h"
MC_SCENARIO(C45, sockets, SEQ, "every use of a socket from creation to destruction, with each system call failing, repeated")
{
	fresh(); int what = choose(10, "use"), f = choose(6, "failing call"), at = choose(3, "at"); static const char *const F[] = { "", "socket", "bind", "send", "recv", "none" }; static const char *const W[] = { "create", "with a destination", "reopen", "close", "send and read", "unix", "unix to nowhere", "unix reopen", "names", "bad destination" };
	std::string p = gDir + "/leak"; if (f == 0 && at) skip(); if (f == 5) skip();
	balance::repeat(W[what], [&] {
		unlink(p.c_str()); gFailCall = F[f]; gFailAt = at; gFailErr = f == 2 ? EADDRINUSE : ENOBUFS; gCalls = 0; char buf[MAX_UDP_LENGTH + 1]; sockaddr_in a;
		try {
			switch (what) {
			case 0: { UDPSocket s(0); break; } case 1: { UDPSocket s(0, "localhost", 9); s.write("x"); break; } case 2: { UDPSocket s(0); s.open(0); s.open(0); break; } case 3: { UDPSocket s(0); s.close(); s.close(); s.open(0); break; }
			case 4: { UDPSocket s(0), r(0); s.destination(r.port(), "127.0.0.1"); s.write("hello"); s.write("y"); r.nonblocking(); r.read(buf); r.read(buf, 1); r.read(buf, 1); r.writeBack("z"); s.blocking(); s.nonblocking(); s.read(buf); break; }
			case 5: { UDDSocket s(p.c_str(), p.c_str()); s.write("x"); s.nonblocking(); s.read(buf); break; } case 6: { UDDSocket s(NULL, p.c_str()); s.write("x"); UDDSocket t((gDir + "/no/such").c_str()); break; } case 7: { UDDSocket s(p.c_str()); s.open((p + "2").c_str()); break; }
			case 8: for (const char *n : { "localhost:5", "unknown.host:5", "localhost", ":", "", "1.2.3.4:99999", "localhost:x" }) resolveAddress(&a, n); resolveAddress(&a, "localhost", 5); resolveAddress(&a, "unknown.host", 5); break;
			case 9: { UDPSocket s(0); s.destination(5, "unknown.host"); s.destination(5, "localhost"); break; }
			}
		} catch (SocketError &) {}
		gFailCall = "";
	}); unlink(p.c_str()); unlink((p + "2").c_str()); outcome(W[what] + std::string(gHit ? " hit" : ""));
}
