// Drivers for time, text and number helpers: C16 C17 C37 C38 C39 C40 C44.
#include "common.h"
#include "sizes.h"
#include "Configuration.h"
#include "Logger.h"
#include "leak.h"
#include "Timeval.h"
#include "Utils.h"
#include "URLEncode.h"
#include "F16.h"
#include "ScalarTypes.h"
#include "MemoryLeak.h"
#include "Regexp.h"
#include <sstream>
#include <memory>
#include <algorithm>
#include <functional>
#include <math.h>
#include <time.h>
#include <limits.h>
#include <iomanip>
ConfigurationTable gConfig;
static int gWrapLevel = LOG_EMERG;
extern "C" int __wrap__Z16gGetLoggingLevelPKc(const char *) { return gWrapLevel; }
int main(int argc, char **argv) { return mc_main(argc, argv); }
static int gErrors;
extern "C" void syslog(int p, const char *, ...) { if ((p & 7) <= LOG_ERR) gErrors++; }
extern "C" void vsyslog(int p, const char *, va_list) { if ((p & 7) <= LOG_ERR) gErrors++; }
extern "C" void __syslog_chk(int p, int, const char *, ...) { if ((p & 7) <= LOG_ERR) gErrors++; }
extern "C" void __vsyslog_chk(int p, int, const char *, va_list) { if ((p & 7) <= LOG_ERR) gErrors++; }
using namespace mc;
static uint64_t rnd(uint64_t &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static std::string show(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } return r; }

// ================================================================ C16: time arithmetic
static const int64_t SECS[] = { 0, 1, 86399, 1000000000, 1700000000, 2147483646, 2147483647, 2147483648LL, 4000000000LL };
static const int USECS[] = { 0, 1, 499, 500, 999, 1000, 1001, 250000, 499999, 500000, 998999, 999000, 999001, 999499, 999999 };
static int64_t us(const Timeval &t) { return (int64_t)t.sec() * 1000000 + t.usec(); }
MC_SCENARIO(C16, future, SEQ, "offsets of every size from every kind of starting instant")
{
	int64_t s = SECS[choose(8, "second")]; int u = USECS[choose(15, "microsecond")]; setClock(s, u); int64_t now = s * 1000000 + u; uint64_t n = 0;
	auto one = [&](unsigned ms) {
		if (s + ms / 1000 > 4294967290LL) return;
		Timeval t(ms); int64_t want = now + ms * 1000LL;
		MC_CHECK(t.usec() < 1000000, "an instant %u ms ahead of %lld has a microsecond field of %u", ms, (long long)now, t.usec());
		MC_CHECK(us(t) == want, "an instant %u ms ahead of %lld is %lld", ms, (long long)now, (long long)us(t));
		struct timespec ts = t.timespec(); MC_CHECK(ts.tv_sec == want / 1000000 && ts.tv_nsec == want % 1000000 * 1000, "as timespec it is %ld,%ld", (long)ts.tv_sec, ts.tv_nsec);
		MC_CHECK(t.remaining() == ms && t.elapsed() == -(long)ms, "%u ms ahead, remaining is %ld, elapsed %ld", ms, t.remaining(), t.elapsed());
		MC_CHECK(!t.passed(), "an instant %u ms ahead has passed", ms);
		Timeval f; f.future(ms); MC_CHECK(us(f) == want, "future(%u)", ms);
		MC_CHECK(fabs(t.seconds() - want / 1e6) < 1e-5, "seconds is %f", t.seconds());
		n++;
	};
	for (unsigned ms = 0; ms < (thorough() ? 200000u : 5000u); ms++) one(ms);
	for (int b = 10; b < 32; b++) for (int d = -2; d <= 2; d++) one((1u << b) + d);
	for (unsigned k = 1; k <= 4294967; k = k * 3 + 1) for (int d = -2; d <= 2; d++) one(k * 1000 + d);
	one(UINT_MAX);
	Timeval w; MC_CHECK(us(w) == now, "the default instant is %lld, not now", (long long)us(w)); w.addMinutes(3); MC_CHECK(us(w) == now + 180000000LL, "addMinutes");
	static const unsigned M[] = { 0, 1, 59, 60, 1439, 525600, 1000000, 20000000, 35791394, 35791395, 40000000, 71582788, 71582789, 2147483648u, 4294967295u }; for (unsigned m : M) { Timeval v; v.addMinutes(m); struct timespec ts = v.timespec(); int64_t g = ts.tv_sec * 1000000LL + ts.tv_nsec / 1000; MC_CHECK(g == now + m * 60000000LL, "%u minutes added to %lld us give %lld us", m, (long long)now, (long long)g); }
	cases(n); outcome(std::to_string(now));
}
MC_SCENARIO(C16, differences, SEQ, "differences between all pairs of instants of a grid, and whether they have passed")
{
	int64_t s1 = SECS[choose(9, "second")]; uint64_t n = 0;
	for (int64_t s2b : SECS) for (int ds = -1; ds <= 1; ds++) { int64_t s2 = s2b + ds; if (s2 < 0) continue; for (int u1 : USECS) for (int u2 : USECS) {
		Timeval a(s1, u1), b(s2, u2); int64_t d = (s2 - s1) * 1000000 + u2 - u1;	// b - a in us
		long r = a.delta(b);
		MC_CHECK(llabs(r * 1000LL - d) < 1000, "from %lld.%06d to %lld.%06d the difference is %ld ms, expected %g", (long long)s1, u1, (long long)s2, u2, r, d / 1000.0);
		MC_CHECK(b.delta(a) == -r, "the difference is not antisymmetric");
		if (d % 1000 == 0) MC_CHECK(r == d / 1000, "an exact difference of %lld ms is %ld", (long long)d / 1000, r);
		setClock(s2, u2);	// b is now
		MC_CHECK(a.passed() == (d > 0), "%lld.%06d has%s passed at %lld.%06d", (long long)s1, u1, a.passed() ? "" : " not", (long long)s2, u2);
		MC_CHECK(a.elapsed() == r && a.remaining() == -r, "elapsed %ld remaining %ld", a.elapsed(), a.remaining());
		n++;
	} }
	cases(n); outcome(std::to_string(s1));
}
MC_SCENARIO(C16, clock_steps, SEQ, "deadlines watched while the clock advances in every sequence of steps", o.quickDepth = 5, o.thoroughDepth = 7)
{
	setClock(1700000000, USECS[choose(15, "microsecond")]);
	static const unsigned T[] = { 1, 20, 999, 1000, 1500 }; unsigned t = T[choose(5, "offset")];
	Timeval d(t); int64_t el = 0; static const int64_t st[] = { 1, 1000, 19999, 500000, 1000000 };
	for (int i = 0; i < depth(); i++) {
		advance(st[choose(5, "step")]); el = nowUs();
		MC_CHECK(d.passed() == (el > t * 1000LL), "a deadline of %u ms %s after %lld us", t, d.passed() ? "has passed" : "has not passed", (long long)el);
		MC_CHECK(llabs(d.remaining() * 1000LL - (t * 1000LL - el)) < 1000, "remaining %ld ms of %u after %lld us", d.remaining(), t, (long long)el);
	}
	outcome(std::to_string(el));
}
MC_SCENARIO(C16, sleeps, SEQ, "millisecond and fractional sleeps")
{
	unsigned k = choose(3000, "duration"); setClock(1700000000, 999000);
	msleep(k); MC_CHECK(nowUs() == k * 1000LL, "msleep(%u) slept %lld us", k, (long long)nowUs());
	int64_t b = nowUs(); double f = k * 0.0137; sleepf(f); int64_t sl = nowUs() - b;
	MC_CHECK(f <= 0.00001 ? sl == 0 : llabs(sl - (int64_t)(f * 1e6)) <= 1, "sleepf(%g) slept %lld us", f, (long long)sl);
	double t = timef(); MC_CHECK(fabs(t - (1700000000.999 + nowUs() / 1e6)) < 1e-5, "timef is %f", t);
	b = nowUs(); double g = (k + 11) * 1e-6; sleepf(g); sl = nowUs() - b; MC_CHECK(llabs(sl - (int64_t)(k + 11)) <= 1, "sleepf(%g) slept %lld us", g, (long long)sl);
	b = nowUs(); sleepf(-1.0); sleepf(0); sleepf(0.000009); MC_CHECK(nowUs() == b, "slept for a non-positive time");
	cases(1); outcome(std::to_string(k / 100));
}

MC_SCENARIO(C16, long_sleeps, SEQ, "sleeps of every magnitude and sign, past the 71 minutes a usleep can hold")
{
	static const long M[] = { LONG_MIN / 2, -4294967296L, -2147483648L, -86400000, -1000, -1, 0, 1, 999, 1000, 1001, 2147483, 2147484, 4294967, 4294968, 4295000, 5000000, 86400000, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967301L, 31536000000L };
	int i = choose(24, "milliseconds"); setClock(1700000000, 999000); int64_t e = M[i] > 0 ? M[i] * 1000LL : 0;
	msleep(M[i]); MC_CHECK(nowUs() == e, "msleep(%ld) slept %lld us", M[i], (long long)nowUs());
	int64_t b = nowUs(); double f = M[i] / 1000.0; sleepf(f); int64_t sl = nowUs() - b; MC_CHECK(llabs(sl - e) <= 1 + e / 1000000000000000LL, "sleepf(%.3f) slept %lld us", f, (long long)sl);
	b = nowUs(); f = M[i] / 1000.0 + 0.000037; sleepf(f); sl = nowUs() - b; if (M[i] >= 0) MC_CHECK(llabs(sl - e - 37) <= 2, "sleepf(%.6f) slept %lld us", f, (long long)sl);
	cases(3); outcome(std::to_string(M[i]));
}
// ================================================================ C17: time as text
static void civil(int64_t t, int &Y, int &M, int &D, int &h, int &m, int &s)
{
	int64_t d = t / 86400, r = t % 86400; if (r < 0) { r += 86400; d--; }
	h = r / 3600; m = r / 60 % 60; s = r % 60;
	int y = 1970; 	// count years and months
	auto leap = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
	while (d < 0) { y--; d += leap(y) ? 366 : 365; }
	while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; y++; }
	static const int L[] = { 31,28,31,30,31,30,31,31,30,31,30,31 };
	int mo = 0; while (d >= L[mo] + (mo == 1 && leap(y))) { d -= L[mo] + (mo == 1 && leap(y)); mo++; }
	Y = y; M = mo + 1; D = d + 1;
}
static std::string iso(int64_t t, const char *z) { int Y, M, D, h, m, s; civil(t, Y, M, D, h, m, s); char b[80]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d%s", Y, M, D, h, m, s, z); return b; }
static const struct { const char *tz; int off; } ZONES[] = { { "UTC0", 0 }, { "AAA-5:30", 19800 }, { "BBB8", -28800 }, { "CCC-14", 50400 }, { "DDD12", -43200 } };
MC_SCENARIO(C17, iso_time, SEQ, "every day of a century and a half at several times of day, in five time zones")
{
	int z = choose(5, "zone"); setenv("TZ", ZONES[z].tz, 1); tzset(); uint64_t n = 0;
	int blk = choose(8, "years"); int64_t from = (int64_t)blk * 7100 * 86400, to = from + 7100 * 86400LL; static const int tod[] = { 0, 1, 3599, 43200, 86399 };
	for (int64_t d = from; d < to; d += 86400 * (thorough() ? 1 : 3)) for (int x : tod) {
		int64_t t = d + x; std::string g = Timeval::isoTime(t, false), l = Timeval::isoTime(t, true), r = "junk";
		MC_CHECK(g == iso(t, "Z"), "UTC time %lld is written %s, expected %s", (long long)t, g.c_str(), iso(t, "Z").c_str());
		MC_CHECK(l == iso(t + ZONES[z].off, ""), "local time %lld in %s is written %s, expected %s", (long long)t, ZONES[z].tz, l.c_str(), iso(t + ZONES[z].off, "").c_str());
		Timeval::isoTime(t, r, false); MC_CHECK(r == g, "the two forms differ");
		n++;
	}
	setenv("TZ", "UTC0", 1); tzset();
	cases(n); outcome(std::to_string(blk) + ZONES[z].tz);
}
// instants far from today, and zones that change their offset twice a year
MC_SCENARIO(C17, far_instants, SEQ, "instants up to ten thousand years away on both sides, in five time zones")
{
	int z = choose(5, "zone"), blk = choose(10, "block"); setenv("TZ", ZONES[z].tz, 1); tzset(); uint64_t n = 0;
	for (int y = blk; y < 20000; y += thorough() ? 10 : 90) for (int x : { 0, 86399, 43200 }) {
		int64_t t = (int64_t)(y - 10000) * 31556952 + (y % 366) * 86400; t -= t % 86400; t += x;
		std::string g = Timeval::isoTime(t, false), l = Timeval::isoTime(t, true), e = iso(t, "Z"), f = iso(t + ZONES[z].off, "");
		MC_CHECK(g == e, "UTC time %lld is written %s, expected %s", (long long)t, g.c_str(), e.c_str()); MC_CHECK(l == f, "local time %lld in %s is written %s, expected %s", (long long)t, ZONES[z].tz, l.c_str(), f.c_str()); n++;
	}
	setenv("TZ", "UTC0", 1); tzset(); cases(n); outcome(std::to_string(blk) + ZONES[z].tz);
}
static int64_t dayOf(int Y, int M, int D) { Y -= M <= 2; int64_t era = (Y >= 0 ? Y : Y - 399) / 400; unsigned yoe = Y - era * 400, doy = (153 * (M + (M > 2 ? -3 : 9)) + 2) / 5 + D - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static int64_t sunday(int Y, int M, int nth) { int64_t d = dayOf(Y, M, 1); int wd = ((d % 7) + 11) % 7; return d + (7 - wd) % 7 + 7 * (nth - 1); }	// day 0 was a Thursday
MC_SCENARIO(C17, summer_time, SEQ, "every change to and from summer time over 130 years in three zones, to the second")
{
	static const struct { const char *tz; int std, dst, m1, n1, h1, m2, n2, h2; } Z[] = { { "EST5EDT,M3.2.0,M11.1.0", -18000, -14400, 3, 2, 2, 11, 1, 2 }, { "AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, 39600, 10, 1, 2, 4, 1, 3 }, { "XXX-1YYY-2:30,M4.1.0/0,M9.2.0/4", 3600, 9000, 4, 1, 0, 9, 2, 4 } };
	auto &z = Z[choose(3, "zone")]; setenv("TZ", z.tz, 1); tzset(); int from = choose(13, "decade"); uint64_t n = 0;
	for (int Y = 1975 + from * 10; Y < 1985 + from * 10; Y++) {
		int64_t on = sunday(Y, z.m1, z.n1) * 86400 + z.h1 * 3600 - z.std, off = sunday(Y, z.m2, z.n2) * 86400 + z.h2 * 3600 - z.dst;
		for (int64_t c : { on, off, dayOf(Y, 1, 1) * 86400, dayOf(Y, 7, 1) * 86400 }) for (int d : { -7200, -3601, -3600, -1, 0, 1, 3599, 3600, 7200 }) {
			int64_t t = c + d; bool dst = on < off ? t >= on && t < off : t >= on || t < off; std::string e = iso(t + (dst ? z.dst : z.std), "");
			MC_CHECK(Timeval::isoTime(t, true) == e, "local time %lld in %s is written %s, expected %s", (long long)t, z.tz, Timeval::isoTime(t, true).c_str(), e.c_str()); MC_CHECK(Timeval::isoTime(t, false) == iso(t, "Z"), "UTC time %lld", (long long)t);
			setClock(t, 300000); std::string full = " " + e + ".3", g = timestr(40, true), h = timestr(40, false); MC_CHECK(g == full && h == " " + e.substr(11) + ".3", "time stamp at %lld in %s is \"%s\" and \"%s\", expected \"%s\"", (long long)t, z.tz, g.c_str(), h.c_str(), full.c_str()); n++;
		}
	}
	setenv("TZ", "UTC0", 1); tzset(); cases(n); outcome(std::to_string(from) + z.tz);
}
MC_SCENARIO(C17, timestamps, SEQ, "time stamps of every width, with and without date, at every tenth of a second around boundaries")
{
	int z = choose(5, "zone"); setenv("TZ", ZONES[z].tz, 1); tzset(); uint64_t n = 0;
	static const int64_t base[] = { 0, 86399, 1709164799, 1709251199, 1735689599, 1700000000, 4102444799LL };
	int64_t s = base[choose(7, "second")];
	for (int ds = 0; ds < 2; ds++) for (int q = 0; q < 50; q++) {
		static const int off[] = { 0, 1, 49999, 50000, 99999 }; int u = q / 5 * 100000 + off[q % 5];
		setClock(s + ds, u);
		std::string full = iso(s + ds + ZONES[z].off, ""); char t[8]; snprintf(t, sizeof t, ".%d", u / 100000);
		std::string dt = " " + full + t, tm = " " + full.substr(11) + t;
		auto cut = [](const std::string &x, unsigned w) { return w >= x.size() ? x : x.substr(x.size() - w); };
		for (unsigned w = 0; w < 40; w++) {
			MC_CHECK(timestr(w) == cut(tm, w), "time stamp of width %u is \"%s\", expected \"%s\"", w, timestr(w).c_str(), cut(tm, w).c_str());
			MC_CHECK(timestr(w, true) == cut(dt, w), "dated time stamp of width %u is \"%s\", expected \"%s\"", w, timestr(w, true).c_str(), cut(dt, w).c_str());
			n += 2;
		}
		MC_CHECK(timestr() == cut(tm, 12), "default time stamp \"%s\"", timestr().c_str());
		std::ostringstream os; os << Timeval(); double v = atof(os.str().c_str()); MC_CHECK(fabs(v - (s + ds + u / 1e6)) < 2e-6 && os.str().find('e') == std::string::npos, "instant printed as %s", os.str().c_str());
		struct timespec ts = Timeval().timespec(); std::ostringstream o2; o2 << ts; MC_CHECK(o2.str() == std::to_string(s + ds) + "," + std::to_string(u * 1000L), "timespec printed as %s", o2.str().c_str());
	}
	setenv("TZ", "UTC0", 1); tzset();
	cases(n); outcome(std::to_string(s) + ZONES[z].tz);
}

// ================================================================ C37: hex and base64
static std::string refHex(const std::string &d) { std::string r; for (unsigned char c : d) { r += "0123456789ABCDEF"[c >> 4]; r += "0123456789ABCDEF"[c & 15]; } return r; }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string refB64(const std::string &d)
{
	std::string r; int acc = 0, nb = 0; for (unsigned char c : d) { acc = (acc << 8 | c) & 0xffffff; nb += 8; while (nb >= 6) { nb -= 6; r += B64[acc >> nb & 63]; } }
	if (nb) r += B64[acc << (6 - nb) & 63]; while (r.size() % 4) r += '='; return r;
}
static std::string dec(const std::string &t, const char *enc, std::string &err) { err = ""; std::unique_ptr<char[]> x(new char[t.size()]); memcpy(x.get(), t.data(), t.size()); return decodeToString(x.get(), t.size(), enc, err); }
static std::string enc(const std::string &t, const char *e, std::string &err) { err = ""; std::unique_ptr<char[]> x(new char[t.size()]); memcpy(x.get(), t.data(), t.size()); return encodeToString(x.get(), t.size(), e, err); }
static void codec(const std::string &d)
{
	std::string err, h = enc(d, "hex", err); MC_CHECK(err.empty() && h == refHex(d), "hex of %s is %s", show(d).c_str(), h.c_str());
	MC_CHECK(dec(h, "hex", err) == d && err.empty(), "hex %s decodes to %s (%s)", h.c_str(), show(dec(h, "hex", err)).c_str(), err.c_str());
	std::string b = enc(d, "base64", err); MC_CHECK(err.empty() && b == refB64(d), "base64 of %s is %s, expected %s", show(d).c_str(), b.c_str(), refB64(d).c_str());
	MC_CHECK(dec(b, "base64", err) == d && err.empty(), "base64 %s decodes to %s (%s)", b.c_str(), show(dec(b, "base64", err)).c_str(), err.c_str());
}
MC_SCENARIO(C37, short_data, SEQ, "every binary string of up to 2 bytes, and of 3 bytes over 40 values (thorough: all)")
{
	int a = choose(257, "first byte"); uint64_t n = 0;
	if (a == 256) { codec(""); cases(1); outcome("empty"); return; }
	std::string d(1, (char)a); codec(d); d += 'x';
	for (int b = 0; b < 256; b++) { d[1] = b; codec(d); n++; }
	d += 'x'; static const unsigned char S[] = { 0, 1, 2, 3, 7, 15, 16, 31, 32, 47, 48, 57, 58, 63, 64, 65, 90, 91, 97, 122, 127, 128, 129, 159, 160, 191, 192, 193, 207, 208, 223, 224, 239, 240, 247, 248, 251, 252, 254, 255 };
	for (unsigned char b : S) { d[1] = b; if (thorough()) { for (int c = 0; c < 256; c++) { d[2] = c; codec(d); n++; } } else for (unsigned char c : S) { d[2] = c; codec(d); n++; } }
	cases(n); outcome(std::to_string(a));
}
MC_SCENARIO(C37, long_data, SEQ, "strings of every length to 200, upper and lower case digits, blanks and line ends anywhere")
{
	unsigned n = choose(201, "length"); uint64_t s = n * 7919 + 3, c = 0; std::string d; for (unsigned i = 0; i < n; i++) d += (char)rnd(s);
	codec(d); std::string err, lo = refHex(d); for (char &x : lo) x = tolower(x); MC_CHECK(dec(lo, "HEX", err) == d && err.empty(), "lower case digits"); MC_CHECK(dec(lo, "Base16", err) == d && err.empty(), "base16");
	MC_CHECK(dec(d, "binary", err) == d && enc(d, "Binary", err) == d && err.empty(), "binary is not verbatim");
	static const char *const sp[] = { " ", "\n", "\r\n\t " };
	for (const char *w : sp) { for (int e = 0; e < 2; e++) { std::string t = e ? refB64(d) : refHex(d); unsigned st = n > 40 ? 7 : 1; for (unsigned i = 0; i <= t.size(); i += st) { std::string u = t; u.insert(i, w); MC_CHECK(dec(u, e ? "base64" : "hex", err) == d && err.empty(), "%s with white space at %u decodes to %s (%s)", show(u).c_str(), i, show(dec(u, e ? "base64" : "hex", err)).c_str(), err.c_str()); c++; } } }
	err = ""; dec(d, "rot13", err); MC_CHECK(!err.empty(), "an unknown encoding is accepted"); enc(d, "", err); MC_CHECK(!err.empty(), "an unknown encoding is accepted");
	cases(c + 1); outcome(std::to_string(n));
}
MC_SCENARIO(C37, very_long, SEQ, "data of every size around round numbers and powers of two, past 65536 bytes, and its errors")
{
	unsigned n = chooseSize(thorough() ? 131073 : 70001); uint64_t s = n * 31 + 1; std::string d, err; for (unsigned i = 0; i < n; i++) d += (char)(rnd(s) >> 3); codec(d); codec(std::string(n, '\xff'));
	if (n) { std::string h = refHex(d), b = refB64(d); h[h.size() - 1] = 'g'; dec(h, "hex", err); MC_CHECK(!err.empty(), "a wrong digit at the end of %u bytes goes unnoticed", n); h.pop_back(); dec(h, "hex", err); MC_CHECK(!err.empty(), "an odd number of digits goes unnoticed after %u bytes", n); dec(b + "=A", "base64", err); MC_CHECK(!err.empty(), "data after the end goes unnoticed after %u bytes", n); b[b.size() / 2] = '!'; dec(b, "base64", err); MC_CHECK(!err.empty(), "a wrong character in the middle of %u bytes goes unnoticed", n); }
	cases(2); outcome(std::to_string(n));
}
MC_SCENARIO(C37, errors, SEQ, "every single wrong byte at every position is reported, as are odd lengths and data after the end")
{
	unsigned L = 1 + choose(10, "length"); uint64_t s = L * 31 + 7, c = 0; std::string d, err; for (unsigned i = 0; i < L; i++) d += (char)rnd(s);
	for (int e = 0; e < 2; e++) { std::string t = e ? refB64(d) : refHex(d); for (unsigned i = 0; i < t.size(); i++) for (int x = 0; x < 256; x++) {
		if (isspace(x) || (e ? x == '=' || strchr(B64, x) : isxdigit(x))) { if (x) continue; }
		std::string u = t; u[i] = x; std::string r = dec(u, e ? "base64" : "hex", err); MC_CHECK(!err.empty(), "%s with byte %#x at %u decodes without an error", e ? "base64" : "hex", x, i); c++;
		MC_CHECK(r.size() <= L + 1, "decoded to %zu bytes", r.size());
	} }
	for (unsigned cut = 1; cut < 2 * L; cut += 2) { dec(refHex(d).substr(0, cut), "hex", err); MC_CHECK(!err.empty(), "odd number of hex digits accepted"); }
	std::string t = refB64(d); while (!t.empty() && t.back() == '=') t.pop_back();
	dec(t + "=A", "base64", err); MC_CHECK(!err.empty(), "data after the end accepted"); dec(t + "= \nx=", "base64", err); MC_CHECK(!err.empty(), "data after the end accepted");
	for (const char *end : { "=", "==", "= ", "=\n=" }) for (const char *more : { "A", "QQ", "QUJ", "QUJD", "QQ==", "QUI=", "QUJDQUJD", " \nQUJD\n" }) { dec(t + end + more, "base64", err); MC_CHECK(!err.empty(), "%s is decoded without an error", show(t + end + more).c_str()); c++; }
	for (unsigned n = 1; n <= t.size(); n += 4) { dec(t.substr(0, n), "base64", err); MC_CHECK(!err.empty(), "a lone base64 character (\"%s\") is decoded without an error", t.substr(0, n).c_str()); }
	cases(c); outcome(std::to_string(L));
}
MC_SCENARIO(C37, wide_numbers, SEQ, "128- and 32-bit numbers as hex strings and back")
{
	unsigned k = choose(65, "bit"); uint64_t v[] = { k == 64 ? 0 : 1ull << k, k == 64 ? ~0ull : (1ull << k) - 1, 0x0123456789ABCDEFull * (k + 1), ~(k == 64 ? 0 : 1ull << k) }; uint64_t n = 0;
	for (uint64_t h : v) for (uint64_t l : v) { std::string s = uintToString(h, l); char b[40]; snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)h, (unsigned long long)l); MC_CHECK(s == b, "%s written as %s", b, s.c_str()); uint64_t h2 = 1, l2 = 1; stringToUint(s, &h2, &l2); MC_CHECK(h2 == h && l2 == l, "%s read as %lx %lx", b, (long)h2, (long)l2); for (char &c : s) c = toupper(c); stringToUint(s, &h2, &l2); MC_CHECK(h2 == h && l2 == l, "upper case %s", s.c_str()); char c8[20]; snprintf(c8, sizeof c8, "%08x", (uint32_t)h); MC_CHECK(uintToString((uint32_t)h) == c8, "%s", c8); n++; }
	cases(n); outcome(std::to_string(k));
}

// ================================================================ C38: string helpers
static void words(std::string al, unsigned len, std::function<void(const std::string &)> f) { uint64_t t = 1; for (unsigned i = 0; i < len; i++) t *= al.size(); for (uint64_t x = 0; x < t; x++) { std::string s; uint64_t y = x; for (unsigned i = 0; i < len; i++, y /= al.size()) s += al[y % al.size()]; f(s); } cases(t); }
static std::vector<std::string> split(const std::string &s, const char *seps) { std::vector<std::string> r; std::string w; for (char c : s) if (strchr(seps, c)) { if (!w.empty()) r.push_back(w); w = ""; } else w += c; if (!w.empty()) r.push_back(w); return r; }
MC_SCENARIO(C38, splitting, SEQ, "every string up to 8 characters over letters and blanks: splitting and picking words")
{
	unsigned L = choose(9, "length"); unsigned cap = 1 + choose(5, "slots");
	auto one = [&](const std::string &s) {
		std::vector<std::string> e = split(s, " \t\r\n"), r;
		if (cap == 1) { r.push_back("x"); std::vector<std::string> &ret = stringSplit(r, s.c_str()); MC_CHECK(&ret == &r && r.size() == e.size() + 1 && r[0] == "x" && std::equal(e.begin(), e.end(), r.begin() + 1), "\"%s\" splits into %zu words, expected %zu", show(s).c_str(), r.size() - 1, e.size());
			for (unsigned n = 0; n <= e.size() + 1; n++) { unsigned l = 99; std::unique_ptr<char[]> x(new char[s.size() + 1]); memcpy(x.get(), s.c_str(), s.size() + 1); char *p = cstrGetArg(x.get(), n, &l); if (n < 1 || n > e.size()) MC_CHECK(p == NULL, "word %u of \"%s\" found", n, show(s).c_str()); else MC_CHECK(p && std::string(p, l) == e[n - 1], "word %u of \"%s\" is \"%s\"", n, show(s).c_str(), p ? std::string(p, l).c_str() : "(none)"); } }
		std::unique_ptr<char[]> x(new char[s.size() + 1]); memcpy(x.get(), s.c_str(), s.size() + 1); char *av[7]; for (auto &p : av) p = (char *)"guard";
		int n = cstrSplit(x.get(), av, cap); MC_CHECK(n == (int)std::min<size_t>(cap, e.size()), "\"%s\" into %u slots gives %d", show(s).c_str(), cap, n);
		for (int i = 0; i < n; i++) if (i < (int)cap - 1 || e.size() < cap) MC_CHECK(e[i] == av[i], "word %d of \"%s\" is \"%s\"", i, show(s).c_str(), av[i]); else MC_CHECK(!strncmp(av[i], e[i].c_str(), e[i].size()), "the last word does not start right");
		for (unsigned i = n; i < 7; i++) MC_CHECK(!strcmp(av[i], "guard"), "a slot past the end was written");
		std::vector<std::string> e2 = split(s, "b,"); memcpy(x.get(), s.c_str(), s.size() + 1); char *a2[10]; n = cstrSplit(x.get(), a2, 10, "b,"); MC_CHECK(n == (int)e2.size(), "split at other characters"); for (int i = 0; i < n; i++) MC_CHECK(e2[i] == a2[i], "split at other characters");
	};
	words("ab \t", L, one); outcome(std::to_string(L) + "/" + std::to_string(cap));
}
MC_SCENARIO(C38, many_words, SEQ, "texts of up to 300 words of one and of several characters, with every kind of separator")
{
	unsigned n = choose(301, "words"); static const char *const SEP[] = { " ", "\t", "  \r\n" }; const char *sep = SEP[choose(3, "separator")]; bool lead = choose(2, "leading"); std::string s = lead ? sep : ""; std::vector<std::string> e, r; for (unsigned i = 0; i < n; i++) { std::string w = i % 3 ? std::string(1, 'a' + i % 26) : "w" + std::to_string(i); e.push_back(w); s += w; if (i + 1 < n || lead) s += sep; }
	stringSplit(r, s.c_str()); MC_CHECK(r == e, "a text of %u words splits into %zu%s", n, r.size(), r.size() == n ? " others" : ""); unsigned l; for (unsigned i = 1; i <= n; i++) { char *p = cstrGetArg(s.c_str(), i, &l); MC_CHECK(p && std::string(p, l) == e[i - 1], "word %u of %u", i, n); } outcome(std::to_string(n));
}
MC_SCENARIO(C38, replacing, SEQ, "every text up to 7, search up to 3 and replacement up to 2 characters over two letters")
{
	unsigned L = choose(8, "length"); uint64_t n = 0; std::vector<std::string> S, R; for (unsigned l = 0; l <= 3; l++) for (unsigned x = 0; x < (1u << l); x++) { std::string w; for (unsigned i = 0; i < l; i++) w += x >> i & 1 ? 'a' : 'b'; S.push_back(w); if (l <= 2) R.push_back(w); } R.push_back("aXa"); R.push_back("xyzzy");
	gWrapLevel = LOG_ERR;
	words("ab", L, [&](const std::string &t) { for (auto &s : S) for (auto &r : R) {
		std::string e; if (s.empty()) e = t; else for (size_t i = 0; i < t.size();) if (t.compare(i, s.size(), s) == 0) { e += r; i += s.size(); } else e += t[i++];
		gErrors = 0; std::string g = replaceAll(t, s, r); MC_CHECK(g == e, "replacing \"%s\" by \"%s\" in \"%s\" gives \"%s\", expected \"%s\"", s.c_str(), r.c_str(), t.c_str(), g.c_str(), e.c_str());
		MC_CHECK(gErrors == 0, "replacing \"%s\" by \"%s\" in \"%s\" logs an error", s.c_str(), r.c_str(), t.c_str()); n++; } });
	gWrapLevel = LOG_EMERG;
	outcome(std::to_string(L));
}
MC_SCENARIO(C38, formatting, SEQ, "formatted strings of every length to 5000 are complete")
{
	unsigned blk = choose(50, "hundred"); 
	for (unsigned n = blk * 100; n < blk * 100 + 100 + (blk == 49); n++) {
		std::string s; for (unsigned i = 0; i < n; i++) s += 'a' + i % 23;
		std::string g = format("%s", s.c_str()); MC_CHECK(g == s, "a formatted string of %u characters comes out with %zu", n, g.size());
		g = format1("%s", s.c_str()); MC_CHECK(g == s, "a formatted string of %u characters comes out with %zu", n, g.size());
		if (n > 10 && n <= 4990) { g = format("%d:%s|%5.1f", (int)n, s.substr(0, n - 10).c_str(), 2.5); MC_CHECK(g == std::to_string(n) + ":" + s.substr(0, n - 10) + "|  2.5", "mixed format of about %u characters", n); }
		MC_CHECK(format("%s", s) == s && format("%s%s", s.substr(0, n / 2), s.substr(n / 2)) == s && format("%s-%d", s, 7) == s + "-7" && format("%d-%s", 7, s) == "7-" + s && format("%s%s%d", s, s, 1) == s + s + "1" && (3 * n + 2 > 5000 || (format("%s,%s,%s", s, "y", s.substr(n / 3)) == s + ",y," + s.substr(n / 3) && format("%s,%s,%s,%s", "w", s, "y", s) == "w," + s + ",y," + s && format("%s,%s=%d%d", s, "k", -3, 12) == s + ",k=-312")) || 2 * n + 1 > 5000, "string argument forms at %u", n);
		{ std::ostringstream in, out; in << s; out << "<"; static_cast<std::ostream &>(out) << in; out << ">"; MC_CHECK(out.str() == "<" + s + ">" && in.str() == s, "a text stream of %u characters printed on another", n); } std::ostringstream os; osprintf(os, "%s", s.c_str()); MC_CHECK(n < 296 ? os.str() == s : os.str() == s.substr(0, 296) + "...", "printing %u characters gives %zu", n, os.str().size());
	}
	if (blk == 49) { std::string s(7000, 'q'); std::string g = format("%s", s.c_str()); MC_CHECK(g == s.substr(0, g.size()) && g.size() >= 5000, "an oversized string is cut to %zu", g.size()); }
	cases(100); outcome(std::to_string(blk));
}
MC_SCENARIO(C38, lines, SEQ, "first lines of every text up to 9 characters")
{
	unsigned L = choose(10, "length");
	words("a\n", L, [&](const std::string &s) { for (int n = 1; n <= 5; n++) { std::string e; int k = 0; for (char c : s) { if (k >= n) break; e += c; if (c == '\n') k++; } std::string g = firstlines(s, n); MC_CHECK(g == e, "first %d lines of \"%s\" are \"%s\", expected \"%s\"", n, show(s).c_str(), show(g).c_str(), show(e).c_str()); } MC_CHECK(firstlines(s) == firstlines(s, 2), "default is two lines"); });
	outcome(std::to_string(L));
}
MC_SCENARIO(C38, scanning, SEQ, "scanning up to four words leaves what is missing alone")
{
	unsigned L = choose(9, "length");
	words("a b", L, [&](const std::string &s) {
		std::vector<std::string> e = split(s, " ");
		for (unsigned k = 1; k <= 4; k++) { std::string r[4] = { "old0", "old1", "old2", "old3" }; int n = k == 1 ? myscanf(s.c_str(), "%s", &r[0]) : k == 2 ? myscanf(s.c_str(), "%s %s", &r[0], &r[1]) : k == 3 ? myscanf(s.c_str(), "%s %s %s", &r[0], &r[1], &r[2]) : myscanf(s.c_str(), "%s %s %s %s", &r[0], &r[1], &r[2], &r[3]);
			MC_CHECK(std::max(n, 0) == (int)std::min<size_t>(k, e.size()), "scanning \"%s\" for %u gives %d", s.c_str(), k, n);
			for (unsigned i = 0; i < k; i++) MC_CHECK(r[i] == (i < e.size() ? e[i] : "old" + std::to_string(i)), "word %u of %u scanned from \"%s\" is \"%s\"", i, k, s.c_str(), show(r[i]).c_str()); }
	});
	outcome(std::to_string(L));
}
struct Txt : public Text2Str { std::string s; void text(std::ostream &os) const { os << s; } };
MC_SCENARIO(C38, joining, SEQ, "concatenation of two to seven strings, text objects, greatest common divisors")
{
	unsigned k = choose(64, "lengths"); std::string p[7]; for (unsigned i = 0; i < 7; i++) p[i] = std::string((k >> (i % 6) & 1) * (i + 1) * 3, 'a' + i);
	std::string e = p[0] + p[1]; MC_CHECK(stringcat(p[0], p[1]) == e, "2"); e += p[2]; MC_CHECK(stringcat(p[0], p[1], p[2]) == e, "3"); e += p[3]; MC_CHECK(stringcat(p[0], p[1], p[2], p[3]) == e, "4"); e += p[4]; MC_CHECK(stringcat(p[0], p[1], p[2], p[3], p[4]) == e, "5"); e += p[5]; MC_CHECK(stringcat(p[0], p[1], p[2], p[3], p[4], p[5]) == e, "6"); e += p[6]; MC_CHECK(stringcat(p[0], p[1], p[2], p[3], p[4], p[5], p[6]) == e, "7");
	Txt t; t.s = p[k % 7]; MC_CHECK(t.str() == t.s, "text object"); std::ostringstream os; os << &t; os << (Txt *)0; MC_CHECK(os.str() == t.s + "(null)", "text object printed as %s", os.str().c_str());
	for (int a = 1; a <= 60; a++) for (int b = 1 + k; b <= 200; b += 64) { int g = 0; for (int d = 1; d <= a && d <= b; d++) if (a % d == 0 && b % d == 0) g = d; MC_CHECK(gcd(a, b) == g && gcd(b, a) == g, "gcd(%d,%d) = %d", a, b, gcd(a, b)); }
	cases(1); outcome(std::to_string(k));
}
MC_SCENARIO(C38, tables, SEQ, "every table of up to 3 rows and 3 columns over cell widths: alignment and content")
{
	static const char *const cell[] = { "_", "a", "abc", "abcdefgh" }; unsigned rows = choose(4, "rows"); prettyTable_t t;
	for (unsigned r = 0; r < rows; r++) { std::vector<std::string> v; unsigned c = choose(4, "columns"); for (unsigned i = 0; i < c; i++) v.push_back(rows == 3 ? cell[choose(2, "cell") + r] : cell[choose(4, "cell")]); t.push_back(v); }
	unsigned w[3] = { 0, 0, 0 }; for (auto &r : t) for (unsigned i = 0; i < r.size(); i++) w[i] = std::max<unsigned>(w[i], r[i].size());
	for (int tab = 0; tab < 2; tab++) {
		std::string e; for (auto &r : t) { for (unsigned i = 0; i < r.size(); i++) { std::string v = r[i] == "_" ? "" : r[i]; if (tab) { if (i) e += "\t"; e += v; } else { e += v; e += std::string(w[i] - v.size() + 1, ' '); } } e += "\n"; } e += "\n";
		std::ostringstream os; printPrettyTable(t, os, tab); MC_CHECK(os.str() == e, "table printed as\n%s\nexpected\n%s", show(os.str()).c_str(), show(e).c_str());
	}
	cases(1); outcome(std::to_string(rows));
}

MC_SCENARIO(C38, wide_tables, SEQ, "tables with cells of every width around the column limit of 100, and very long ones")
{
	static const unsigned W[] = { 1, 97, 98, 99, 100, 101, 102, 130, 199, 248, 249, 250, 251, 252, 253, 300, 1000 }; unsigned a = W[choose(17, "cell")], b = W[choose(17, "cell below")]; int cols = 1 + choose(2, "columns"), hdr = choose(2, "header");
	prettyTable_t t; if (hdr) { t.push_back({ "_" }); if (cols > 1) t[0].push_back("h"); } t.push_back({ std::string(a, 'x') }); t.push_back({ std::string(b, 'y') }); if (cols > 1) for (auto &r : t) if (r.size() < 2) r.push_back("z");
	unsigned w = std::min(100u, std::max(a, b));
	for (int tab = 0; tab < 2; tab++) {
		std::string e; for (auto &r : t) { std::string v = r[0] == "_" ? "" : r[0]; e += v; if (!tab) e += std::string(v.size() < w ? w - v.size() + 1 : 1, ' '); if (cols > 1) { if (tab) e += "\t"; e += r[1]; if (!tab) e += " "; } e += "\n"; } e += "\n";
		std::ostringstream os; printPrettyTable(t, os, tab); MC_CHECK(os.str() == e, "table with cells of %u and %u characters printed as\n%s\nexpected\n%s", a, b, show(os.str()).c_str(), show(e).c_str());
	}
	cases(1); outcome(std::to_string(w));
}
MC_SCENARIO(C38, many_columns, SEQ, "tables with every number of columns up to 40")
{
	unsigned c = choose(41, "columns"); prettyTable_t t(2); for (unsigned i = 0; i < c; i++) { t[0].push_back("c" + std::to_string(i)); t[1].push_back(i % 3 ? "v" : "vvvv"); }
	std::ostringstream os, ot; printPrettyTable(t, os); printPrettyTable(t, ot, true); std::string e, f; for (auto &r : t) { for (unsigned i = 0; i < c; i++) { unsigned w = std::max(t[0][i].size(), t[1][i].size()); e += r[i] + std::string(w - r[i].size() + 1, ' '); if (i) f += "\t"; f += r[i]; } e += "\n"; f += "\n"; }
	MC_CHECK(os.str() == e + "\n", "table of %u columns printed as\n%s", c, show(os.str()).c_str()); MC_CHECK(ot.str() == f + "\n", "table of %u columns printed as\n%s", c, show(ot.str()).c_str()); cases(1);
}
// ================================================================ C39: URL encoding
static void url(const std::string &s)
{
	std::string g = URLEncode(s), d; 
	for (size_t i = 0; i < g.size(); i++) {
		if (g[i] == '%') { MC_CHECK(i + 2 < g.size() && isxdigit(g[i + 1]) && isxdigit(g[i + 2]) && !islower(g[i + 1]) && !islower(g[i + 2]), "\"%s\" encodes to \"%s\", a broken escape", show(s).c_str(), g.c_str()); d += (char)strtol(g.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
		else { MC_CHECK(g[i] && ((isascii(g[i]) && isalnum(g[i])) || strchr("-_.!~*'()", g[i])), "\"%s\" encodes to \"%s\" with a reserved character", show(s).c_str(), show(g).c_str()); d += g[i]; }
	}
	MC_CHECK(d == s, "\"%s\" encodes to \"%s\", which decodes to \"%s\"", show(s).c_str(), show(g).c_str(), show(d).c_str());
	size_t plain = 0; for (unsigned char c : s) if (c < 128 && c && (isalnum(c) || strchr("-_.!~'()", c))) plain++; size_t esc = 0; for (char c : g) if (c == '%') esc++;
	MC_CHECK(esc + plain <= s.size() , "\"%s\" escapes characters that need none: \"%s\"", show(s).c_str(), g.c_str());
}
MC_SCENARIO(C39, all_pairs, SEQ, "every string of up to two bytes, and those embedded in text (thorough: three bytes over 64 values)")
{
	int a = choose(257, "first byte"); uint64_t n = 0; if (a == 256) { url(""); cases(1); outcome("empty"); return; }
	std::string s(1, (char)a); url(s); for (int b = 0; b < 256; b++) { std::string t = s + (char)b; url(t); url("ab" + t + "%z"); n += 2; if (thorough()) for (int c = 0; c < 256; c += 3) { url(t + (char)c); n++; } }
	cases(n); outcome(std::to_string(a));
}
MC_SCENARIO(C39, long_strings, SEQ, "strings of every length to 300")
{ unsigned n = choose(301, "length"); uint64_t s = n + 1; std::string t; for (unsigned i = 0; i < n; i++) t += (char)rnd(s); url(t); url(std::string(n, 'a')); url(std::string(n, '%')); cases(3); outcome(std::to_string(n)); }
MC_SCENARIO(C39, very_long, SEQ, "strings of every size around round numbers and powers of two, past 65536 bytes")
{ unsigned n = chooseSize(thorough() ? 131073 : 70001); uint64_t s = n + 1; std::string t; for (unsigned i = 0; i < n; i++) t += (char)rnd(s); url(t); url(std::string(n, 'a') + "%"); cases(2); outcome(std::to_string(n)); }

// ================================================================ C40: fixed point numbers
static std::vector<int32_t> raws(bool many)
{
	std::vector<int32_t> v; for (int b = 0; b < 32; b++) for (int d = -1; d <= 1; d++) { v.push_back((int32_t)((1u << b) + d)); v.push_back((int32_t)-((1u << b) + d)); }
	for (int i = -20; i <= 20; i++) { v.push_back(i); v.push_back(i * 32768); v.push_back(i * 65536 + 1); }
	uint64_t s = 12345; for (int i = 0; i < (many ? 2000 : 150); i++) v.push_back((int32_t)rnd(s) >> (i % 20));
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
static F16 raw(int32_t r) { F16 x; x.raw() = r; return x; }
static int64_t sat(__int128 x) { return x > INT32_MAX ? INT32_MAX : x < INT32_MIN ? INT32_MIN : (int64_t)x; }
MC_SCENARIO(C40, arithmetic, SEQ, "every pair of boundary values: sums, differences, products, quotients, comparisons, with saturation")
{
	std::vector<int32_t> v = raws(thorough()); unsigned k = choose(8, "slice"); uint64_t n = 0;
	for (size_t i = k; i < v.size(); i += 8) for (int32_t b : v) {
		int32_t a = v[i]; F16 x = raw(a), y = raw(b), z;
		#define CHK(op, want, name) { int64_t w_ = want; MC_CHECK((op).raw() == w_, "%d " name " %d (in 65536ths) is %d, expected %lld", a, b, (op).raw(), (long long)w_); }
		CHK(x + y, sat((__int128)a + b), "+"); CHK(x - y, sat((__int128)a - b), "-"); CHK(x * y, sat(((__int128)a * b) >> 16), "*");
		z = x; CHK(z += y, sat((__int128)a + b), "+="); z = x; CHK(z -= y, sat((__int128)a - b), "-="); z = x; CHK(z *= y, sat(((__int128)a * b) >> 16), "*=");
		if (b) { CHK(x / y, sat((__int128)a * 65536 / b), "/"); z = x; CHK(z /= y, sat((__int128)a * 65536 / b), "/="); }
		MC_CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x == y) == (a == b), "comparison of %d and %d", a, b);
		F16 p, q; p = q = x; MC_CHECK(p.raw() == a && q.raw() == a, "chained assignment of %d gives %d", a, p.raw());
		n++;
	}
	cases(n); outcome(std::to_string(k));
}
MC_SCENARIO(C40, conversions, SEQ, "every 16-bit integer, and every value that a float can represent, to fixed point and back")
{
	unsigned k = choose(64, "slice"); uint64_t n = 0;
	for (int i = -32768 + (int)k; i <= 32767; i += 64) { F16 x(i), y; y = i; MC_CHECK(x.raw() == i * 65536 && y.raw() == x.raw() && x.f() == (float)i, "%d converts to %d", i, x.raw()); n++; }
	static const int big[] = { 32768, 40000, 65535, 65536, 1 << 20, INT_MAX, -32769, -65536, INT_MIN }; for (int i : big) { F16 x(i), y; y = i; MC_CHECK(x.raw() == (i > 0 ? INT32_MAX : INT32_MIN) && y.raw() == x.raw(), "%d converts to %d, not to the nearest limit", i, x.raw()); }
	for (int64_t r = -(1 << 24) + (int)k; r <= (1 << 24); r += 64 * (thorough() ? 1 : 37)) {
		F16 x = raw(r); float f = x.f(); MC_CHECK(f == r / 65536.0F, "value of %lld is %g", (long long)r, f);
		F16 y(f), z, d((double)f); z = f; MC_CHECK(y.raw() == r && z.raw() == r && d.raw() == r, "%.9g converts to %d/65536, expected %lld", f, y.raw(), (long long)r);
		MC_CHECK(x == f && !(x < f) && !(x > f), "comparison with float %g", f); float up = nextafterf(f, 1e9F), dn = nextafterf(f, -1e9F); MC_CHECK(x < up && x > dn && !(x == up) && !(x == dn), "comparison with the neighbours of %g", f);
		n++;
	}
	for (int32_t r : raws(true)) { double d = r / 65536.0; MC_CHECK(F16(d).raw() == r, "%.12g converts to %d/65536, expected %d", d, F16(d).raw(), r); for (int q = 1; q < 4; q++) { double e = (r + q / 4.0) / 65536.0; int64_t w = sat(llround(r + q / 4.0)), g = F16(e).raw(); MC_CHECK(llabs(g - w) <= (q == 2), "%.12g converts to %lld/65536, expected %lld", e, (long long)g, (long long)w); } }
	static const float bf[] = { 32768, 1e6F, 1e30F, INFINITY }; for (float f : bf) { F16 y; y = f; MC_CHECK(F16(f).raw() == INT32_MAX && F16(-f).raw() == INT32_MIN && F16((double)f).raw() == INT32_MAX && y.raw() == INT32_MAX, "%g converts to %d", f, F16(f).raw()); }
	cases(n); outcome(std::to_string(k));
}
MC_SCENARIO(C40, float_factors, SEQ, "products and quotients with floats")
{
	std::vector<int32_t> v = raws(thorough()); unsigned k = choose(8, "slice"); uint64_t n = 0; static const float F[] = { 0, 1, -1, 0.5F, -0.5F, 2, 3, 0.1F, -7.25F, 100, 65536, 1e-5F, 1e6F, -1e6F, 1e20F, 1.0000001F, 0.99999994F, 5, -7, 10, 49, 103, 1.5F, 16777215, 0.3F, 0.33333334F };
	for (size_t i = k; i < v.size(); i += 8) for (float f : F) { int32_t a = v[i]; F16 x = raw(a);
		auto near = [&](int64_t g, long double w, const char *nm) { long double c = w > INT32_MAX ? INT32_MAX : w < INT32_MIN ? INT32_MIN : w; long double t = truncl(c), up = t + (c < 0 ? -1 : 1);	// exact, except that a result a hair short of the next value may be that value
			MC_CHECK(g == (int64_t)t || (g == (int64_t)up && fabsl(up - c) < 1e-6L), "%d/65536 %s %.9g is %lld, expected %.9Lf cut towards zero", a, nm, f, (long long)g, c); };
		near((x * f).raw(), (long double)a * f, "*"); F16 z = x; z *= f; near(z.raw(), (long double)a * f, "*="); if (f != 0) { near((x / f).raw(), (long double)a / f, "/"); z = x; z /= f; near(z.raw(), (long double)a / f, "/="); }
		std::ostringstream os; os << x; std::ostringstream o2; o2 << a / 65536.0F; MC_CHECK(os.str() == o2.str(), "%d/65536 printed as %s", a, os.str().c_str()); n++; }
	cases(n); outcome(std::to_string(k));
}

// ================================================================ C44: statistics, scalars, counters
template <class T> static void statistic(const char *name)
{
	static const int V[] = { 0, 5, -3, 100, 7 };
	Statistic<T> s; std::vector<T> p; MC_CHECK(s.getCurrent() == (T)0 && s.getAvg() == 0, "empty %s statistic", name);
	for (int i = 0; i < depth(); i++) {
		T v = (T)V[choose(5, "value")]; s.addPoint(v); p.push_back(v);
		double sum = 0; for (T x : p) sum += x; T mn = *std::min_element(p.begin(), p.end()), mx = *std::max_element(p.begin(), p.end());
		MC_CHECK(s.getCurrent() == v && s.mMin == mn && s.mMax == mx && s.mCnt == p.size() && fabs(s.getAvg() - sum / p.size()) < 1e-6 * (1 + fabs(sum)), "%s statistic after %zu points: current %g min %g max %g avg %g", name, p.size(), (double)s.getCurrent(), (double)s.mMin, (double)s.mMax, s.getAvg());
		std::ostringstream os; os << s; std::ostringstream e; e << "(" << v; if (mn != mx) e << " min=" << mn << " max=" << mx << " avg=" << sum / p.size() << " N=" << p.size(); e << ")";
		std::string g = os.str(); g.erase(std::remove(g.begin(), g.end(), ','), g.end()); MC_CHECK(g == e.str(), "printed as %s, expected %s", g.c_str(), e.str().c_str());
	}
	outcome(std::to_string(s.getAvg()));
}
MC_SCENARIO(C44, statistics_int, SEQ, "every sequence of values", o.quickDepth = 5, o.thoroughDepth = 7) { statistic<int>("int"); }
MC_SCENARIO(C44, statistics_unsigned, SEQ, "every sequence of values", o.quickDepth = 5, o.thoroughDepth = 7) { statistic<unsigned>("unsigned"); }
MC_SCENARIO(C44, statistics_double, SEQ, "every sequence of values", o.quickDepth = 5, o.thoroughDepth = 7) { statistic<double>("double"); }
MC_SCENARIO(C44, statistics_float, SEQ, "every sequence of values", o.quickDepth = 5, o.thoroughDepth = 7) { statistic<float>("float"); }
MC_SCENARIO(C44, statistics_of_many_points, SEQ, "the printed form of statistics of up to four thousand million points")
{
	static const unsigned N[] = { 2, 9, 10, 99999, 999998, 999999, 1000000, 1000001, 1004999, 1005001, 9999999, 10000000, 99949999, 99950001, 123456789, 999499999, 999500001, 1000000000, 2147483647u, 2147483648u, 4294967295u }; unsigned n = N[choose(21, "points")];
	Statistic<int> s; unsigned done = n > 1000001 ? 1000001 : n; for (unsigned i = 0; i < done; i++) s.addPoint(i & 1 ? 3 : 1); MC_CHECK(s.mCnt == done, "%u points counted of %u", s.mCnt, done);
	double a = (3.0 * (done / 2) + 1.0 * (done - done / 2)) / done; MC_CHECK(fabs(s.getAvg() - a) < 1e-9, "average of %u points %g, expected %g", done, s.getAvg(), a);
	if (done != n) { s.mSum = s.mSum / s.mCnt * n; s.mCnt = n; }	// Adding the others one by one would take minutes.
	std::ostringstream o; o << s; std::string t = o.str(), g = t; size_t at = t.find(" N="); MC_CHECK(at != std::string::npos && t[t.size() - 1] == ')', "%u points printed as %s", n, t.c_str());
	for (char &c : g) if (c == ',') c = ' '; char *end; std::string d = g.substr(at + 3, g.size() - at - 4); double shown = strtod(d.c_str(), &end); MC_CHECK(*end == 0 && end != d.c_str(), "%u points printed as %s", n, t.c_str());
	MC_CHECK(n <= 999999 ? shown == n : fabs(shown - n) <= n * 0.005, "%u points printed as %s", n, t.c_str()); MC_CHECK(g.compare(0, 2, n & 1 ? "(1" : "(3") == 0 || n > done, "%u points printed as %s", n, t.c_str()); MC_CHECK(g.find("min=1 ") != std::string::npos && g.find("max=3 ") != std::string::npos, "%u points printed as %s", n, t.c_str());
	outcome(std::to_string(n));
}
MC_SCENARIO(C44, bit_sets, SEQ, "every sequence of setting and clearing bits", o.quickDepth = 3, o.thoroughDepth = 4)
{
	BitSet b; unsigned m = 0; MC_CHECK(b.bits() == 0, "a new set is not empty");
	for (int i = 0; i < depth(); i++) { unsigned k = choose(32, "bit"); if (choose(2, "clear")) { b.clearBit(k); m &= ~(1u << k); } else { b.setBit(k); m |= 1u << k; } MC_CHECK(b.bits() == m && (unsigned)(int)b == m, "set is %#x, expected %#x", b.bits(), m); for (unsigned j = 0; j < 32; j++) MC_CHECK(b.isSet(j) == (m >> j & 1) && !b.getBit(j) == !(m >> j & 1), "bit %u", j); state(m, depth() - i - 1); }
	outcome(std::to_string(m));
}
template <class T, class B> static void scalar(const char *name, B init)
{
	T x; B m = init; MC_CHECK((B)x == m, "%s starts at %lld", name, (long long)(B)x);
	for (int i = 0; i < depth(); i++) {
		B r = 0, e = 0;
		switch (choose(8, "operation")) {
		case 0: r = ++x; e = ++m; break; case 1: r = x++; e = m++; break; case 2: r = --x; e = --m; break; case 3: r = x--; e = m--; break;
		case 4: r = x += 3; e = m += 3; break; case 5: r = x -= 5; e = m -= 5; break; case 6: r = x = 9; e = m = 9; break; case 7: *&x = 4; m = 4; r = e = 4; break;
		}
		MC_CHECK(r == e && (B)x == m, "%s: result %lld value %lld, expected %lld %lld", name, (long long)r, (long long)(B)x, (long long)e, (long long)m);
	}
	T y((B)7); MC_CHECK((B)y == (B)7, "construction from a value");
	outcome(std::to_string((long long)m));
}
MC_SCENARIO(C44, scalars, SEQ, "every sequence of operations on each initialised scalar type", o.quickDepth = 4, o.thoroughDepth = 6)
{
	switch (choose(14, "type")) {
	case 0: scalar<Int_z, int>("Int_z", 0); break; case 1: scalar<Char_z, signed char>("Char_z", 0); break; case 2: scalar<Int16_z, int16_t>("Int16_z", 0); break; case 3: scalar<UInt_z, unsigned>("UInt_z", 0); break; case 4: scalar<UChar_z, unsigned char>("UChar_z", 0); break;
	case 5: scalar<UInt16_z, uint16_t>("UInt16_z", 0); break; case 6: scalar<UInt32_z, uint32_t>("UInt32_z", 0); break; case 7: scalar<Size_t_z, size_t>("Size_t_z", 0); break; case 8: scalar<Float_z, float>("Float_z", 0); break; case 9: scalar<Double_z, double>("Double_z", 0); break;
	case 10: scalar<Int_i<42>, int>("Int_i<42>", 42); break; case 11: scalar<UChar_i<200>, unsigned char>("UChar_i<200>", 200); break; case 12: scalar<Field_i<7, 3>, unsigned>("Field_i<7,3>", 3); break; case 13: scalar<Field_z<12>, unsigned>("Field_z<12>", 0); break;
	}
	Char_i<-5> ci; Int16_i<-300> si; Int32_i<70000> wi; UInt_i<4000000000u> ui; UInt16_i<65535> usi; UInt32_i<4294967295u> uwi; Size_t_i<18446744073709551615ull> zi; Bool_i<true> bi; MC_CHECK(ci == -5 && si == -300 && wi == 70000 && ui == 4000000000u && usi == 65535 && uwi == 4294967295u && zi == 18446744073709551615ull && bi, "an initialised scalar has another value");
	{ enum Colour { NONE, RED = 7, BLUE = -2 }; Enum_z<Colour> c; MC_CHECK(c == NONE, "an enumeration starts at %d", (int)c); c = BLUE; MC_CHECK(c == BLUE, "an enumeration is %d", (int)c); Enum_z<Colour> d(RED); MC_CHECK(d == RED, "an enumeration is %d", (int)d); d = c; MC_CHECK(d == BLUE, "a copied enumeration is %d", (int)d); }
	{ Field_i<> f0; Field_i<7, 3> f1; Field_z<12> f2; Field_z<1, 1> f3; Field<> f4; const ItemWithValueAndWidth *w[] = { std::addressof(f0), std::addressof(f1), std::addressof(f2), std::addressof(f3), std::addressof(f4) }; static const unsigned W[] = { 32, 7, 12, 1, 32 }, V[] = { 0, 3, 0, 1, 0 }; f4 = 0; for (int i = 0; i < 5; i++) MC_CHECK(w[i]->getWidth() == W[i] && w[i]->getValue() == V[i], "field %d: width %u value %u", i, w[i]->getWidth(), w[i]->getValue()); f0 = 0xffffffffu; f1 = 127; f1--; ++f2; MC_CHECK(w[0]->getValue() == 0xffffffffu && w[1]->getValue() == 126 && w[2]->getValue() == 1, "values of changed fields"); }
	Bool_z b; MC_CHECK(!b, "Bool_z"); b = true; MC_CHECK(b, "Bool_z"); Field<9> f; f = 5; ItemWithValueAndWidth *w = static_cast<ItemWithValueAndWidth *>(std::addressof(f)); MC_CHECK(w->getWidth() == 9 && w->getValue() == 5, "field width");
}
struct LeakA; DEFINE_MEMORY_LEAK_DETECTOR_CLASS(Vector, CheckA) struct LeakA : public CheckA { };
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TBF, CheckB) struct LeakB : public CheckB { };
MC_SCENARIO(C44, leak_counters, SEQ, "every sequence of creating and destroying counted objects", o.quickDepth = 8, o.thoroughDepth = 11)
{
	int a0 = gMemStats.mMemNow[MemStats::mVector], at = gMemStats.mMemTotal[MemStats::mVector], b0 = gMemStats.mMemNow[MemStats::mTBF], bt = gMemStats.mMemTotal[MemStats::mTBF];
	std::vector<LeakA *> a; std::vector<LeakB *> b; int ta = 0, tb = 0, k0 = 0; for (auto &p : gMemStats.mMemMap) if (p.first.find("LeakA_") == 0) k0 += p.second;
	for (int i = 0; i < depth(); i++) {
		switch (choose(4, "operation")) { case 0: a.push_back(new LeakA); ta++; RN_MEMLOG(LeakA, a.back()); break; case 1: b.push_back(new LeakB); tb++; break; case 2: if (a.empty()) skip(); delete a.back(); a.pop_back(); break; case 3: if (b.empty()) skip(); delete b.front(); b.erase(b.begin()); break; }
		MC_CHECK(gMemStats.mMemNow[MemStats::mVector] - a0 == (int)a.size() && gMemStats.mMemTotal[MemStats::mVector] - at == ta && gMemStats.mMemNow[MemStats::mTBF] - b0 == (int)b.size() && gMemStats.mMemTotal[MemStats::mTBF] - bt == tb, "counters are off");
		int keyed = -k0; for (auto &p : gMemStats.mMemMap) if (p.first.find("LeakA_") == 0) keyed += p.second; MC_CHECK(keyed == (int)a.size(), "%d labelled objects counted, %zu exist", keyed, a.size());
		std::ostringstream os; gMemStats.text(os); if (ta) { std::string l = "\tVector " + std::to_string(a0 + a.size()) + " " + std::to_string(at + ta) + "\n"; MC_CHECK(os.str().find(l) != std::string::npos, "report lacks %s", l.c_str()); }
	}
	for (auto p : a) delete p; for (auto p : b) delete p; outcome(std::to_string(ta) + "," + std::to_string(tb));
}
MC_SCENARIO(C44, copied_objects, SEQ, "every sequence of creating, copying, assigning, labelling and destroying counted objects", o.quickDepth = 7, o.thoroughDepth = 9)
{
	int a0 = gMemStats.mMemNow[MemStats::mVector], at = gMemStats.mMemTotal[MemStats::mVector], k0[2] = { 0, 0 }, tot = 0; static std::string key[2]; std::vector<std::pair<LeakA *, int> > a;
	auto keyed = [](int k) { auto p = gMemStats.mMemMap.find(key[k]); return key[k].empty() || p == gMemStats.mMemMap.end() ? 0 : p->second.value; }; for (int k = 0; k < 2; k++) k0[k] = keyed(k);
	for (int i = 0; i < depth(); i++) {
		int op = choose(7, "operation"); if (op && a.empty()) skip();
		switch (op) {
		case 0: a.push_back(std::make_pair(new LeakA, -1)); tot++; break;
		case 1: a.push_back(std::make_pair(new LeakA(*a.front().first), -1)); tot++; break;
		case 2: if (a.size() < 2) skip(); *a.front().first = *a.back().first; break;
		case 3: if (a.back().second >= 0) skip(); { LeakA *p = a.back().first; RN_MEMLOG(LeakA, p); key[0] = p->mccKey; a.back().second = 0; } break;
		case 4: if (a.front().second >= 0) skip(); { LeakA *p = a.front().first; RN_MEMLOG(LeakA, p); key[1] = p->mccKey; a.front().second = 1; } break;
		case 5: delete a.back().first; a.pop_back(); break;
		case 6: delete a.front().first; a.erase(a.begin()); break;
		}
		int now = gMemStats.mMemNow[MemStats::mVector] - a0, all = gMemStats.mMemTotal[MemStats::mVector] - at; MC_CHECK(now == (int)a.size() && all == tot, "%zu objects exist of %d created, the counters say %d of %d", a.size(), tot, now, all);
		for (int k = 0; k < 2; k++) { int n = 0; for (auto &p : a) n += p.second == k; MC_CHECK(keyed(k) - k0[k] == n, "%d objects labelled in line %d exist, %d are counted", n, k, keyed(k) - k0[k]); }
	}
	for (auto &p : a) delete p.first; MC_CHECK(gMemStats.mMemNow[MemStats::mVector] == a0, "the counter does not return to its start"); outcome(std::to_string(tot));
}
MC_SCENARIO(C44, many_objects, SEQ, "up to 70000 counted objects at once")
{
	unsigned n = chooseSize(70001); int a0 = gMemStats.mMemNow[MemStats::mVector], at = gMemStats.mMemTotal[MemStats::mVector], k0 = 0; auto keyed = []() { int k = 0; for (auto &p : gMemStats.mMemMap) if (p.first.find("LeakA_") == 0) k += p.second; return k; }; k0 = keyed();
	std::vector<LeakA *> a; for (unsigned i = 0; i < n; i++) { a.push_back(new LeakA); RN_MEMLOG(LeakA, a.back()); } 
	auto check = [&](int now) { MC_CHECK(gMemStats.mMemNow[MemStats::mVector] - a0 == now && gMemStats.mMemTotal[MemStats::mVector] - at == (int)n && keyed() - k0 == now, "%d objects of %u exist, the counters say %d, %d, %d", now, n, gMemStats.mMemNow[MemStats::mVector] - a0, gMemStats.mMemTotal[MemStats::mVector] - at, keyed() - k0); std::ostringstream os; gMemStats.text(os); if (n) { std::string l = "\tVector " + std::to_string(a0 + now) + " " + std::to_string(at + n) + "\n"; MC_CHECK(os.str().find(l) != std::string::npos, "report lacks %s", l.c_str()); } };
	check(n); for (unsigned i = 0; i < n / 2; i++) { delete a.back(); a.pop_back(); } check(n - n / 2); for (auto p : a) delete p; check(0); outcome(std::to_string(n));
}
MC_SCENARIO(C44, regexps, SEQ, "patterns against every string up to 6 letters, compared with direct matchers")
{
	unsigned L = choose(7, "length"); Regexp anch("^a+b*$"), alt("(ab|ba)"), icase("^AB", REG_EXTENDED | REG_ICASE), any("c");
	words("abc", L, [&](const std::string &s) {
		size_t i = 0; while (i < s.size() && s[i] == 'a') i++; bool m = i > 0; while (i < s.size() && s[i] == 'b') i++; m = m && i == s.size(); MC_CHECK(anch.match(s.c_str()) == m, "^a+b*$ against %s", s.c_str());
		MC_CHECK(alt.match(s.c_str()) == (s.find("ab") != std::string::npos || s.find("ba") != std::string::npos), "(ab|ba) against %s", s.c_str());
		MC_CHECK(icase.match(s.c_str()) == (s.compare(0, 2, "ab") == 0), "^AB ignoring case against %s", s.c_str()); MC_CHECK(any.match(s.c_str()) == (s.find('c') != std::string::npos), "c against %s", s.c_str()); });
	outcome(std::to_string(L));
}

// ================================================================ C45: nothing is held back
#include "balance.h"
#include "Threads.h"
#include "BitVector.h"
#include "LinkedLists.h"
#include "Interthread.h"
static void *threadBody(void *p) { ++*(int *)p; return p; }
struct LeakElem : public SingleLinkListNode { std::string s; LeakElem() : s("an element with text") {} virtual ~LeakElem() {} LeakElem *next() { return (LeakElem *)mNext; } unsigned size() { return 1; } };
MC_SCENARIO(C45, helpers, SEQ, "every text, time and number helper on texts of many lengths, repeated")
{
	static const char *const W[] = { "format", "format of texts", "splitting", "picking words", "scanning", "replacing", "encoding", "decoding", "broken codes", "URLs", "times", "tables", "lines", "backtrace", "patterns", "joining", "bit vectors", "statistics" }; int w = choose(18, "call"); static const int L[] = { 0, 1, 7, 199, 200, 201, 5000 }; int n = L[choose(7, "length")]; std::string t(n, 'q');
	balance::repeat(W[w], [&] {
		switch (w) {
		case 0: format("%s-%d", t.c_str(), n); format("%*d", n + 1, 5); break; case 1: format("%s", t); format("%s %s", t, t); format("%s%d", t, 4); format1("%s", t.c_str()); break;
		case 2: { std::vector<std::string> v; std::string in = t + " a b " + t; stringSplit(v, in.c_str()); char buf[11000]; strcpy(buf, in.c_str()); char *av[5]; cstrSplit(buf, av, 5); break; }
		case 3: { unsigned len; std::string in = " a " + t + " b"; for (int i = 0; i < 5; i++) cstrGetArg(in.c_str(), i, &len); break; } case 4: { std::string a, b, c, d; std::string in = t.substr(0, 150) + " x y z"; myscanf(in.c_str(), "%s %s", &a, &b); myscanf(in.c_str(), "%s %s %s %s", &a, &b, &c, &d); myscanf("", "%s", &a); break; }
		case 5: replaceAll(t + "xx" + t, "q", "longer"); replaceAll(t, "", "x"); replaceAll(t, "qq", ""); break; case 6: { std::string e; for (const char *c : { "base64", "hex", "binary", "nosuch" }) encodeToString(t.data(), t.size(), c, e); break; }
		case 7: { std::string e, o; for (const char *c : { "base64", "hex", "binary" }) { o = encodeToString(t.data(), t.size(), c, e); decodeToString(o.data(), o.size(), c, e); } break; } case 8: { std::string e; for (const char *c : { "base64", "hex", "nosuch" }) { decodeToString((t + "!\x01").data(), n + 2, c, e); decodeToString((t + "=").data(), n + 1, c, e); decodeToString("=", 1, c, e); } break; }
		case 9: URLEncode(t + " /%\xff"); break; case 10: Timeval::isoTime(1700000000 + n, n & 1); timestr(7); timestr(n % 20, true); break; case 11: { prettyTable_t tab(3, std::vector<std::string>(n % 50, t)); std::ostringstream o; printPrettyTable(tab, o, false); printPrettyTable(tab, o, true); break; }
		case 12: firstlines(t + "\n" + t, n); break; case 13: rn_backtrace(); break; case 14: { Regexp r("^(q+|a[bc]{2})$"); r.match(t.c_str()); break; } case 15: stringcat(t, t); stringcat(t, "x", t); break;
		case 16: { BitVector b(n), c(b, b), d(b); d = c; BitVector e = c.segment(0, n); SoftVector s(b); SoftVector u = s.segment(0, n); std::ostringstream o; o << c << s; BitVector x("0101"); b.clone(x); b = x; break; }
		default: { Statistic<int> s; s.addPoint(n); std::ostringstream o; o << s; } }
	}); outcome(W[w]);
}
static void *leavingBody(void *p) { ++*(int *)p; pthread_exit(0); return 0; }
MC_SCENARIO(C45, threads_and_lists, SEQ, "threads started and joined, lists, queues, maps and locks built, used and destroyed, repeated")
{
	static const char *const W[] = { "start and join", "three threads", "start with a stack size", "a thread never started", "list", "pointer list", "queue", "queue with wait", "map", "priority queue", "locks", "semaphore", "a thread that leaves its task early", "one thread object started again" }; int w = choose(14, "use"), n = choose(4, "elements");
	balance::repeat(W[w], [&] {
		int cnt = 0;
		switch (w) {
		case 0: { Thread t; t.start(threadBody, &cnt); t.join(); MC_CHECK(cnt == 1, "the thread ran %d times", cnt); break; } case 1: { Thread t[3]; int c[3] = { 0, 0, 0 }; for (int i = 0; i < 3; i++) t[i].start(threadBody, &c[i]); for (int i = 0; i < 3; i++) t[i].join(); break; }
		case 2: { Thread t; t.start2(threadBody, &cnt, 65536 * (1 + n)); t.join(); break; } case 3: { Thread t; break; }
		case 4: { PointerFIFO f; int x[4]; for (int i = 0; i < n; i++) f.put(&x[i]); for (int i = 0; i < n / 2; i++) f.get(); for (int i = 0; i < n; i++) f.push_front(&x[i]); break; }
		case 5: { InterthreadQueue<LeakElem, SingleLinkList<LeakElem> > q; for (int i = 0; i < n; i++) q.write(new LeakElem); q.clear(); for (int i = 0; i < n; i++) { q.write(new LeakElem); delete q.read(); } break; }
		case 6: { InterthreadQueue<LeakElem> q; for (int i = 0; i < n; i++) { q.write(new LeakElem); q.write_front(new LeakElem); } delete q.readNoBlock(); if (n) delete q.read(10); q.clear(); break; }
		case 7: { InterthreadQueueWithWait<LeakElem> q; for (int i = 0; i < n; i++) q.write(new LeakElem); q.wait(n); q.clear(); break; }
		case 8: { InterthreadMap<int, LeakElem> m; for (int i = 0; i < n; i++) m.write(i % 2, new LeakElem); m.readNoBlock(0); m.remove(1); for (int i = 0; i < n; i++) m.write(i, new LeakElem); break; }
		case 9: { InterthreadPriorityQueue<int> q; int *x; for (int i = 0; i < n; i++) q.write(new int(i)); while ((x = q.readNoBlock())) delete x; break; }
		case 10: { Mutex m; Signal s; RWLock r; { ScopedLock l(m); ScopedLock k(m); } m.trylock(); m.unlock(); r.rlock(); r.unlock(); s.signal(); s.broadcast(); break; }
		case 12: { Thread t; if (n & 1) t.start2(leavingBody, &cnt, 131072); else t.start(leavingBody, &cnt); t.join(); MC_CHECK(cnt == 1, "the thread ran %d times", cnt); break; }
		case 13: { Thread t; for (int i = 0; i <= n; i++) { t.start(threadBody, &cnt); t.join(); } MC_CHECK(cnt == n + 1, "the thread ran %d times", cnt); break; } default: { Semaphore s; s.post(); s.get(); break; }
		}
	}); outcome(W[w]);
}
