// Drivers for resolving names in several threads: C43.
#include "common.h"
#include "quiet.inc"
#include "Sockets.h"
#include <string.h>
#include <memory>
using namespace mc;
ConfigurationTable gConfig;
// gethostbyname answers in static memory; each use of it is visible to the race detector.
static struct hostent gHost; static char *gAddrs[2]; static struct in_addr gAddr; static int gErr;
extern "C" int *__h_errno_location() { return &gErr; }
extern "C" struct hostent *gethostbyname(const char *n)
{
	gHost.h_addr_list = 0; gErr = 0; point(&gHost); if (!inet_aton(n, &gAddr)) { gErr = HOST_NOT_FOUND; return 0; }
	gAddrs[0] = (char *)&gAddr; gAddrs[1] = 0; gHost.h_addrtype = AF_INET; gHost.h_length = 4; gHost.h_addr_list = gAddrs; return &gHost;
}
static void one(int k)
{
	static const char *T[] = { "10.0.0.1:80", "10.0.0.2:5061", "192.168.3.4:0", "nowhere:1", "10.0.0.9" }; static const char *A[] = { "10.0.0.1", "10.0.0.2", "192.168.3.4" }; static const int P[] = { 80, 5061, 0 };
	sockaddr_in a; memset(&a, 0, sizeof a); bool r = resolveAddress(&a, T[k]); MC_CHECK(r == (k < 3), "'%s' is %s", T[k], r ? "accepted" : "refused"); if (k < 3) MC_CHECK(a.sin_addr.s_addr == inet_addr(A[k]) && ntohs(a.sin_port) == P[k] && a.sin_family == AF_INET, "'%s' resolves to %x port %d", T[k], ntohl(a.sin_addr.s_addr), ntohs(a.sin_port));
}
MC_SCENARIO(C43, resolving, CONC, "two threads resolving every pair of names, twice", o.quick = 3, o.thorough = 99)
{
	int a = choose(5, "first"), b = choose(5, "second"); spawn([a, b]() { one(a); one(b); }); spawn([b]() { one(b); }); one(0); joinAll(); outcome("ok");
}
