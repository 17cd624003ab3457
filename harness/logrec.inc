// Records what goes to syslog and to the console.
#include "Configuration.h"
#include "Logger.h"
#include <stdarg.h>
#include <iostream>
struct Rec { int prio; std::string text; };
static std::vector<Rec> *gSys;	// null: not recording
static std::string *gErr;
static void sysRec(int p, const char *f, va_list a)
{
	if (!gSys) return;
#ifdef MC_CONC_HARNESS
	mc::point(&gSys); mc::raceIgnore(1);
#endif
	va_list b; va_copy(b, a); int n = vsnprintf(0, 0, f, b); va_end(b);
	std::string s(n + 1, 0); vsnprintf(&s[0], n + 1, f, a); s.resize(n); gSys->push_back({ p, s });
#ifdef MC_CONC_HARNESS
	mc::raceIgnore(-1);
#endif
}
extern "C" {
void vsyslog(int p, const char *f, va_list a) { sysRec(p, f, a); }
void syslog(int p, const char *f, ...) { va_list a; va_start(a, f); sysRec(p, f, a); va_end(a); }
void __syslog_chk(int p, int, const char *f, ...) { va_list a; va_start(a, f); sysRec(p, f, a); va_end(a); }
void __vsyslog_chk(int p, int, const char *f, va_list a) { sysRec(p, f, a); }
}
struct ErrBuf : std::streambuf {
	void put(const char *p, size_t n) {
#ifdef MC_CONC_HARNESS
		mc::point(&gErr); mc::raceIgnore(1); if (gErr) gErr->append(p, n); mc::raceIgnore(-1);
#else
		if (gErr) gErr->append(p, n);
#endif
	}
	int overflow(int c) override { if (c != EOF) { char x = c; put(&x, 1); } return 0; }
	std::streamsize xsputn(const char *p, std::streamsize n) override { put(p, n); return n; }
};
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; size_t b = 0; while (b < s.size()) { size_t e = s.find('\n', b); if (e == std::string::npos) { v.push_back(s.substr(b) + "<no newline>"); break; } v.push_back(s.substr(b, e - b)); b = e + 1; } return v; }
static bool endsWith(const std::string &a, const std::string &b) { return a.size() >= b.size() && !a.compare(a.size() - b.size(), b.size(), b); }
static const char *const LEV[] = { "EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG" };
static std::string show(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } return r.size() > 200 ? r.substr(0, 200) + "..." : r; }
