// Drivers for helpers used by several threads at once, each on its own data: C46.
#include "common.h"
#include "quiet.inc"
#include "Configuration.h"
#include "Timeval.h"
#include "URLEncode.h"
#include "BitVector.h"
#include "F16.h"
#include "Regexp.h"
#include "Reporting.h"
#include <functional>
#include <sstream>
#include <string.h>
#include <time.h>
#include <unistd.h>
using namespace mc;
typedef std::string S;
ConfigurationTable gConfig;

// ---- library functions with a result or a state of their own ----
// As in the C library, but visible to the race detector and with a scheduling point after the call.
static bool gOn; static void call(const void *p) { if (gOn) point(p); }
static char gTok; static struct tm gTm; static char gTime[64]; static char *gSave;
extern "C" {
struct tm *localtime(const time_t *t) { localtime_r(t, &gTm); call(&gTm); return &gTm; }
struct tm *gmtime(const time_t *t) { gmtime_r(t, &gTm); call(&gTm); return &gTm; }
char *asctime(const struct tm *t) { char b[64]; asctime_r(t, b); strcpy(gTime, b); call(&gTime); return gTime; }
char *ctime(const time_t *t) { return asctime(localtime(t)); }
char *strtok(char *s, const char *d) { call(&gTok); char *p = gSave; char *r = strtok_r(s, d, &p); gSave = p; return r; }
}

// ---- the helpers ----
// w selects the caller's data; the result depends on it alone.
struct Helper { const char *what; std::function<S(int)> f; };
template<class T> static S str(const T &x) { std::ostringstream o; o << x; return o.str(); }
static const std::vector<Helper> &helpers()
{
	static std::vector<Helper> *v; if (v) return *v; v = new std::vector<Helper>; auto add = [](const char *w, std::function<S(int)> f) { v->push_back({ w, f }); };
	static const S T[] = { "one", S(300, 'b') + " two", "th\x01ree %d" }; static const time_t W[] = { 1700000000, 86399, 2000000001 };
	add("format", [](int w) { return format("%s/%d/%5.2f", T[w].c_str(), w, w / 3.0) + format("%s-%s", T[w], T[w]) + format1("%c", 'a' + w); });
	add("splitting", [](int w) { std::vector<S> r; stringSplit(r, (T[w] + " x y").c_str()); S o; for (auto &s : r) o += s + "|"; char b[400]; strcpy(b, T[w].c_str()); strcat(b, " p q"); char *av[4]; int n = cstrSplit(b, av, 4); for (int i = 0; i < n; i++) o += S(av[i]) + ","; return o; });
	add("picking words", [](int w) { unsigned len; S in = T[w] + " second third", o; for (int i = 0; i < 4; i++) { char *p = cstrGetArg(in.c_str(), i, &len); if (p) o += S(p, len) + ";"; } return o; });
	add("scanning", [](int w) { S a, b; S in = T[w].substr(0, 9) + " tail" + std::to_string(w); int n = myscanf(in.c_str(), "%s %s", &a, &b); return std::to_string(n) + a + "," + b; });
	add("replacing", [](int w) { return replaceAll(T[w], "e", "EE" + std::to_string(w)); });
	add("base64", [](int w) { S e; S c = encodeToString(T[w].data(), T[w].size(), "base64", e); return c + decodeToString(c.data(), c.size(), "base64", e) + e; });
	add("hex", [](int w) { S e; S c = encodeToString(T[w].data(), T[w].size(), "hex", e); return c + decodeToString(c.data(), c.size(), "hex", e) + e + decodeToString("0g", 2, w ? "hex" : "base64", e) + e; });
	add("URL encoding", [](int w) { return URLEncode(T[w] + " /%"); });
	add("ISO time, local", [](int w) { return Timeval::isoTime(W[w], true); });
	add("ISO time, UTC", [](int w) { return Timeval::isoTime(W[w], false); });
	add("time stamps", [](int w) { return timestr(7 + 3 * w, w == 1); });
	add("current time stamp", [](int) { return timestr(); });
	add("tables", [](int w) { prettyTable_t t(2 + w, std::vector<S>(2, T[w])); t[0].push_back("_"); std::ostringstream o; printPrettyTable(t, o, w == 2); return o.str(); });
	add("first lines", [](int w) { return firstlines(T[w] + "\n" + T[w] + "\nend", 1 + w); });
	add("joining", [](int w) { return stringcat(T[w], "-", T[w]) + std::to_string(gcd(12 * (w + 1), 18)); });
	add("statistics", [](int w) { Statistic<int> s; for (int i = 0; i < 3; i++) s.addPoint(i * w + 1); return str(s); });
	add("bit vectors", [](int w) { BitVector b(40 + w); b.fillField(0, 0x1234567 * (w + 1), 32); BitVector c(b, b.segment(0, 8)); std::ostringstream o; o << c << c.peekField(3, 20) << "/" << b.sum(); unsigned char p[16]; memset(p, 0, 16); BitVector d; d.clone(b); d.pack(p); for (int i = 0; i < 5; i++) o << (int)p[i] << ","; b.hex(o); return o.str(); });
	add("parity and coding", [](int w) { BitVector b(24); b.fillField(0, 0xabc1 * (w + 3), 24); std::ostringstream o; SoftVector u(b); o << u << u.sliced(); Generator g(0x10003 + w * 2, 16); o << b.syndrome(g) << "/"; Parity q(0x10233, 8, 24); BitVector pw(8); q.writeParityWord(b, pw); o << pw; BitVector l(24); b.copyTo(l); l.LSB8MSB(); o << l; return o.str(); });
	add("fixed point", [](int w) { F16 a(1.5 + w), b(0.25f), c(a * b); std::ostringstream o; o << (a + b).f() << " " << c.f() << " " << (a / b).f(); return o.str(); });
	add("patterns", [](int w) { Regexp r(w ? "^t" : "^o"); return std::to_string(r.match(T[w].c_str())) + std::to_string(r.match("tx")); });
	add("key=value lists", [](int w) { SimpleKeyValue k; k.addItems(("a=1 b=" + std::to_string(w) + " c=x").c_str()); bool ok; return S(k.get("b")) + std::to_string(k.getNum("a", ok)); });
	add("hash strings", [](int w) { HashString h(T[w]); return std::to_string(h.hash()); });
	add("key descriptions", [](int w) { std::ostringstream o; ConfigurationKey k("k" + std::to_string(w), "5", "units", ConfigurationKey::CUSTOMER, w == 1 ? ConfigurationKey::CHOICE : ConfigurationKey::VALRANGE, w == 1 ? "1|one,2|two" : "0:9(1)", w == 0, "text" + T[w]); ConfigurationKey::printKey(k, T[w], o); ConfigurationKey::printDescription(k, o); S a, b, c; if (w != 1) ConfigurationKey::getMinMaxStepping(k, a, b, c); return o.str() + a + b + c + std::to_string(ConfigurationKey::isValidIP(w ? "1.2.3.4" : "1.2.3")); });
	add("quoting", [](int w) { return sqlite3_quote("it's " + T[w]); });
	add("time values", [](int w) { Timeval a; a.future(1000 * w + 7); Timeval b = a; return std::to_string(a.remaining() / 1000) + std::to_string(b.passed()) + std::to_string(b.delta(a)); });
	add("objects as text", [](int w) { struct X : Text2Str { int w; void text(std::ostream &o) const { o << "obj" << w; } } x; x.w = w; return x.str() + str((Text2Str *)&x); });
	return *v;
}
static void together(int n, bool same)
{
	const auto &H = helpers(); const Helper *h[3]; int d[3]; S r[3]; h[0] = &H[choose(H.size(), "first helper")]; for (int i = 1; i < n; i++) h[i] = same ? h[0] : &H[choose(H.size(), "second helper")]; for (int i = 0; i < n; i++) d[i] = i;
	gOn = true; for (int i = 0; i < n; i++) spawn([&, i] { r[i] = h[i]->f(d[i]); }); joinAll(); gOn = false;
	for (int i = 0; i < n; i++) { S e = h[i]->f(d[i]); MC_CHECK(r[i] == e, "%s gives '%s' next to %s, and '%s' alone", h[i]->what, show(r[i]).c_str(), h[(i + 1) % n]->what, show(e).c_str()); } outcome(h[0]->what);
}
MC_SCENARIO(C46, pairs, FORK, "every pair of helpers, in two threads, as the first ones used in the process", o.quick = 1, o.thorough = 3) { together(2, false); }
MC_SCENARIO(C46, same, FORK, "every helper in three threads at once", o.quick = 2, o.thorough = 4) { together(3, true); }
