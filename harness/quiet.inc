// Logging is not the subject here: threshold under the driver's control, syslog recorded.
#include "Configuration.h"
#include "Logger.h"
#include <stdarg.h>
static int gWrapLevel = LOG_EMERG;
extern "C" int __wrap__Z16gGetLoggingLevelPKc(const char *) { return gWrapLevel; }
int main(int argc, char **argv) { return mc_main(argc, argv); }
static int gErrors;
extern "C" void syslog(int p, const char *, ...) { if ((p & 7) <= LOG_ERR) gErrors++; }
extern "C" void vsyslog(int p, const char *, va_list) { if ((p & 7) <= LOG_ERR) gErrors++; }
extern "C" void __syslog_chk(int p, int, const char *, ...) { if ((p & 7) <= LOG_ERR) gErrors++; }
extern "C" void __vsyslog_chk(int p, int, const char *, va_list) { if ((p & 7) <= LOG_ERR) gErrors++; }
static std::string show(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } return r.size() > 200 ? r.substr(0, 200) + "..." : r; }
