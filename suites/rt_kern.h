// C library pieces under the generator's code
#pragma once
#include <string.h>
#include <sys/types.h>
extern "C" ssize_t getrandom(void *b, size_t n, unsigned) { memset(b, 0x5a, n); return (ssize_t)n; }
#ifndef VP_NATIVE
static void *vp_tls[64]; static unsigned vp_keys;
extern "C" int pthread_key_create(unsigned *k, void (*)(void *)) { *k = ++vp_keys; return 0; }
extern "C" int pthread_key_delete(unsigned) { return 0; }
extern "C" int pthread_setspecific(unsigned k, const void *v) { vp_tls[k] = (void *)v; return 0; }
extern "C" void *pthread_getspecific(unsigned k) { return vp_tls[k]; }
#endif
