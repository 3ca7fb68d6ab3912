/* malloc that fills new blocks with 0xff bytes (NaN as doubles): reads of memory never written show up in the results */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
void *malloc(size_t n) {
  static void *(*m)(size_t);
  if (!m) m = dlsym(RTLD_NEXT, "malloc");
  void *p = m(n);
  if (p) memset(p, 0xff, n);
  return p;
}
