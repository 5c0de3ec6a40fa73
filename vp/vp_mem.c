/* byte-loop versions of the mem* functions, for harnesses with small symbolic sizes */
#ifndef VP_NATIVE
#include <stddef.h>
#ifdef VP_MEMBIG
#include "sbn.h"
#endif
void *memcpy(void *d, const void *s, size_t n){
  char *a = d; const char *b = s;
#ifdef VP_MEMBIG
  /* whole structures (constant sizes) */
  if(n == VP_MEMBIG){
    char tmp[VP_MEMBIG];
    __CPROVER_array_copy(tmp, (char*)s);
    __CPROVER_array_replace((char*)d, tmp);
    return(d);
  }
#endif
  for(size_t i = 0; i < n; ++i) a[i] = b[i];
  return(d);
}
void *memmove(void *d, const void *s, size_t n){
  char *a = d; const char *b = s;
  if(n == 0) return(d);
  if(__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s))
    for(size_t i = n; i > 0; --i) a[i-1] = b[i-1];
  else
    for(size_t i = 0; i < n; ++i) a[i] = b[i];
  return(d);
}
void *memset(void *d, int c, size_t n){
  char *a = d;
  for(size_t i = 0; i < n; ++i) a[i] = (char)c;
  return(d);
}
int memcmp(const void *x, const void *y, size_t n){
  const unsigned char *a = x, *b = y;
  for(size_t i = 0; i < n; ++i) if(a[i] != b[i]) return((int)a[i] - (int)b[i]);
  return(0);
}
#endif
