/* list splitting and number parsing: src/strsplit.c, src/stoi.c, filterlib/util.c */
#include "vp.h"
#include <limits.h>
#include <inttypes.h>
#ifdef STOI
int strto_int(char *s, int *val);
int strto_uint(char *s, unsigned int *val);
int strto_u16(char *s, uint16_t *val);
int strto_u32(char *s, uint32_t *val);
/*
 * The text, as far as the conversion functions of the C library tell about it:
 * a sign or none, a magnitude (or more than 64 bits), and whatever follows.
 */
static char s[4];
static int neg, any, over;
static unsigned long long mag;
static char *end_of(void){ return(any ? s + 1 + neg : s); }
static long long conv(const char *t, char **end){
  VP_ASSERT(t == s, "the text given is converted");
  if(end != NULL) *end = end_of();
  if(!any) return(0);
  if(over || mag > (unsigned long long)LLONG_MAX + (unsigned)neg){ errno = ERANGE; return(neg ? LLONG_MIN : LLONG_MAX); }
  return(neg ? (long long)(0ULL - mag) : (long long)mag);
}
static unsigned long long uconv(const char *t, char **end){
  VP_ASSERT(t == s, "the text given is converted");
  if(end != NULL) *end = end_of();
  if(!any) return(0);
  if(over){ errno = ERANGE; return(ULLONG_MAX); }
  return(neg ? 0ULL - mag : mag);
}
long VP_STUB(strtol)(const char *t, char **end, int base){ VP_ASSERT(base == 10, "decimal"); return(conv(t, end)); }
long long VP_STUB(strtoll)(const char *t, char **end, int base){ VP_ASSERT(base == 10, "decimal"); return(conv(t, end)); }
unsigned long VP_STUB(strtoul)(const char *t, char **end, int base){ VP_ASSERT(base == 10, "decimal"); return(uconv(t, end)); }
unsigned long long VP_STUB(strtoull)(const char *t, char **end, int base){ VP_ASSERT(base == 10, "decimal"); return(uconv(t, end)); }
intmax_t VP_STUB(strtoimax)(const char *t, char **end, int base){ VP_ASSERT(base == 10, "decimal"); return(conv(t, end)); }
uintmax_t VP_STUB(strtoumax)(const char *t, char **end, int base){ VP_ASSERT(base == 10, "decimal"); return(uconv(t, end)); }
void numbers(void){
  long long v;
  int ok, st, e0;
  neg = vp_nd_bool(); any = vp_nd_bool(); over = vp_nd_bool();
  mag = vp_nd_u64();
  if(neg) s[0] = '-';
  s[neg] = any ? '7' : 'x';
  s[neg + 1] = any ? (char)vp_nd_u8() : 'x';
  /* 17 digits are beyond every type concerned */
  ok = any && !over && mag < (1ULL << 62) && s[neg + 1] == '\0';
  v = neg ? -(long long)mag : (long long)mag;
  e0 = vp_nd_range(0, 40);
  errno = e0;
  switch(vp_nd_range(0, 3)){
  case 0: {
    int x = 77;
    st = strto_int(s, &x);
    VP_ASSERT((st == 0) == (ok && v >= INT_MIN && v <= INT_MAX), "accepted exactly when the text is a number in the range of the result");
    VP_ASSERT(x == (st == 0 ? (int)v : 77), "the result is the number, or is left alone");
    if(st == 0 && v == INT_MIN) VP_REACH("smallest");
    if(ok && v > INT_MAX) VP_REACH("too large");
    break;
  }
  case 1: {
    unsigned int x = 77;
    st = strto_uint(s, &x);
    VP_ASSERT((st == 0) == (ok && v >= 0 && v <= (long long)UINT_MAX), "accepted exactly when the text is a number in the range of the result");
    VP_ASSERT(x == (st == 0 ? (unsigned int)v : 77), "the result is the number, or is left alone");
    if(st == 0 && v == (long long)UINT_MAX) VP_REACH("largest");
    break;
  }
  case 2: {
    uint16_t x = 77;
    st = strto_u16(s, &x);
    VP_ASSERT((st == 0) == (ok && v >= 0 && v <= 0xffff), "accepted exactly when the text is a number in the range of the result");
    VP_ASSERT(x == (st == 0 ? (uint16_t)v : 77), "the result is the number, or is left alone");
    if(st == 0 && v == 0xffff) VP_REACH("largest 16");
    break;
  }
  default: {
    uint32_t x = 77;
    st = strto_u32(s, &x);
    VP_ASSERT((st == 0) == (ok && v >= 0 && v <= 0xffffffffLL), "accepted exactly when the text is a number in the range of the result");
    VP_ASSERT(x == (st == 0 ? (uint32_t)v : 77), "the result is the number, or is left alone");
    if(st != 0) VP_REACH("refused");
  }}
  VP_ASSERT(errno == e0, "the error number of the caller is left alone");
}
#else
#include "strsplit.h"
extern int vp_oom;
#ifndef N
#define N 4
#endif
/* compare the result with the pieces of s */
static void check(struct strsplit_st *p, const char *s, const char *d, int flags){
  int i = 0, n = 0, b = 0, k;
  while(1){
    int end = (s[i] == '\0'), cut = end || s[i] == d[0] || (d[1] != 0 && s[i] == d[1]);
    if(cut){
      if(i > b || flags == STRSPLIT_FLAG_INCEMPTY){
	VP_ASSERT(n < p->argc, "no element is missing");
	for(k = 0; k < N; ++k)
	  if(k < i - b) VP_ASSERT(p->argv[n][k] == s[b + k], "each element is the text between the delimiters");
	VP_ASSERT(p->argv[n][i - b] == '\0', "each element is the text between the delimiters");
	++n;
      }
      b = i + 1;
    }
    if(end) break;
    ++i;
  }
  VP_ASSERT(p->argc == n, "no element is added");
}
void split(void){
  static char s[N + 1], d[3];
  struct strsplit_st *p;
  int flags = vp_nd_bool() ? STRSPLIT_FLAG_INCEMPTY : STRSPLIT_FLAG_IGNEMPTY;
  vp_nd_str(s, N);
  vp_nd_str(d, 2);
  VP_ASSUME(d[0] != '\0');
  p = strsplit_create(s, d, flags);
  if(s[0] == '\0'){
    VP_ASSERT(p == NULL, "an empty text is no list");
    return;
  }
  if(p == NULL){
    VP_ASSERT(vp_oom, "a list is returned unless the memory is exhausted");
    return;
  }
  check(p, s, d, flags);
  if(p->argc == 3) VP_REACH("three");
  strsplit_delete(p);
}
#endif
#ifndef STOI
void resplit(void){
  static char s[N + 1], s2[N + 1];
  struct strsplit_st *p, *q;
  int flags = vp_nd_bool() ? STRSPLIT_FLAG_INCEMPTY : STRSPLIT_FLAG_IGNEMPTY;
  vp_nd_str(s, N);
  vp_nd_str(s2, N);
  VP_ASSUME(s[0] != '\0' && s2[0] != '\0');
  p = strsplit_create(s, ",", flags);
  if(p == NULL) return;
  q = strsplit_recreate(s2, ",", flags, p);
  if(q == NULL) return;
  check(q, s2, ",", flags);
  if(q == p) VP_REACH("storage used again");
  if(q != p) VP_REACH("new storage");
}
#endif
