/* allocation which may fail (a draw each time) */
#include "vp.h"
int vp_oom, vp_nalloc;
#ifdef VP_NATIVE
# define RAW(n, z) ((z) ? calloc(1, (n) ? (n) : 1) : malloc((n) ? (n) : 1))
#else
# ifdef VP_ALLOC_MAX
/* objects of a fixed size: sizes asked for are symbolic, which is much harder */
static void *raw(size_t n, int z){
  __CPROVER_assert(n <= VP_ALLOC_MAX, "VP: allocation within the model");
  return(__CPROVER_allocate(VP_ALLOC_MAX, z));
}
#  define RAW(n, z) raw(n, z)
# else
#  define RAW(n, z) __CPROVER_allocate(n, z)
# endif
#endif
#ifndef VP_ALLOC_OK
# define FAILS() vp_nd_bool()
#else
# define FAILS() 0
#endif
void *VP_STUB(malloc)(size_t n){
  if(FAILS()){ errno = ENOMEM; vp_oom = 1; return(NULL); }
  ++vp_nalloc;
  return(RAW(n, 0));
}
void *VP_STUB(calloc)(size_t a, size_t b){
  if(FAILS()){ errno = ENOMEM; vp_oom = 1; return(NULL); }
  ++vp_nalloc;
  return(RAW(a*b, 1));
}
char *VP_STUB(strdup)(const char *s){
  char *p;
  size_t n, i;
  if(FAILS()){ errno = ENOMEM; vp_oom = 1; return(NULL); }
  ++vp_nalloc;
  for(n = 0; s[n] != '\0'; ++n);
  p = RAW(n + 1, 0);
  for(i = 0; i < n; ++i) p[i] = s[i];
  p[n] = '\0';
  return(p);
}
