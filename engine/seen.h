// Included first by every instrumented source: copies that the compiler would expand in place, unseen by the race
// detector, become calls of the functions in mc.cpp that report what they touch.
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *mcm_memcpy(void *, const void *, size_t); void *mcm_memmove(void *, const void *, size_t); void *mcm_memset(void *, int, size_t);
#ifdef __cplusplus
}
#endif
#define __builtin_memcpy(d, s, n) mcm_memcpy(d, s, n)
#define __builtin_memmove(d, s, n) mcm_memmove(d, s, n)
#define __builtin_memset(d, c, n) mcm_memset(d, c, n)
