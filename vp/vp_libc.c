/*
 * Models, for the symbolic side only, of the libc functions that CBMC has no
 * usable body for (formatting, scanning, numeric conversion, tokenizing).
 * The native replay uses the real libc, so a wrong model shows up as a
 * counterexample (or a reachability witness) that does not reproduce.
 */
#ifndef VP_NATIVE
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <limits.h>
#include <stdint.h>
#include <stddef.h>
#include <ctype.h>

/* glibc tables behind the ctype macros */
static int vp_isspace(int c){ return(c == ' ' || (c >= '\t' && c <= '\r')); }
static int vp_isdigit(int c){ return(c >= '0' && c <= '9'); }
static int vp_isupper(int c){ return(c >= 'A' && c <= 'Z'); }
static int vp_islower(int c){ return(c >= 'a' && c <= 'z'); }
static int vp_isalpha(int c){ return(vp_isupper(c) || vp_islower(c)); }

#undef isspace
#undef isdigit
#undef isupper
#undef islower
#undef isalpha
#undef isalnum
#undef isprint
#undef isascii
#undef tolower
#undef toupper
#undef ispunct
#undef iscntrl
#undef isgraph
#undef isxdigit
#undef isblank
int isspace(int c){ return(vp_isspace(c)); }
int isdigit(int c){ return(vp_isdigit(c)); }
int isupper(int c){ return(vp_isupper(c)); }
int islower(int c){ return(vp_islower(c)); }
int isalpha(int c){ return(vp_isalpha(c)); }
int isalnum(int c){ return(vp_isalpha(c) || vp_isdigit(c)); }
int isprint(int c){ return(c >= 32 && c < 127); }
int isgraph(int c){ return(c > 32 && c < 127); }
int iscntrl(int c){ return((c >= 0 && c < 32) || c == 127); }
int isblank(int c){ return(c == ' ' || c == '\t'); }
int isascii(int c){ return(c >= 0 && c < 128); }
int ispunct(int c){ return(isgraph(c) && !isalnum(c)); }
int isxdigit(int c){ return(vp_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')); }
int tolower(int c){ return(vp_isupper(c) ? c + 32 : c); }
int toupper(int c){ return(vp_islower(c) ? c - 32 : c); }

/* ------------------------------------------------------------ formatting */
struct vp_out {
  char *b;
  size_t size;
  size_t n;
};

static void vp_putc(struct vp_out *o, char c){
  if(o->size != 0 && o->n < o->size - 1)
    o->b[o->n] = c;
  ++o->n;
}

static void vp_putu(struct vp_out *o, unsigned long v, unsigned base,
		    int upper, int neg, int width, int prec, int left, int zero, int plus){
  char t[24];
  int k = 0, i, nd, tot;
  if(base == 10 && v <= 0xffffffffUL){
    /* 32 bit division is far cheaper for the solver */
    unsigned int w = (unsigned int)v;
    do{ t[k++] = (char)('0' + w % 10u); w /= 10u; }while(w != 0 && k < 10);
  }else{
    do{
      unsigned d = (unsigned)(v % base);
      t[k++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
      v /= base;
    }while(v != 0 && k < 23);
  }
  nd = k;
  if(prec > nd) nd = prec;
  tot = nd + (neg || plus ? 1 : 0);
  if(!left && !(zero && prec < 0))
    for(i = tot; i < width; ++i) vp_putc(o, ' ');
  if(neg) vp_putc(o, '-'); else if(plus) vp_putc(o, '+');
  if(!left && zero && prec < 0)
    for(i = tot; i < width; ++i) vp_putc(o, '0');
  for(i = k; i < nd; ++i) vp_putc(o, '0');
  while(k > 0) vp_putc(o, t[--k]);
  if(left)
    for(i = tot; i < width; ++i) vp_putc(o, ' ');
}

static int vp_format(struct vp_out *o, const char *f, va_list ap){
  while(*f != '\0'){
    int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0;
    if(*f != '%'){ vp_putc(o, *f++); continue; }
    ++f;
    while(*f == '-' || *f == '0' || *f == '+' || *f == ' ' || *f == '#'){
      if(*f == '-') left = 1;
      if(*f == '0') zero = 1;
      if(*f == '+') plus = 1;
      ++f;
    }
    if(*f == '*'){ width = va_arg(ap, int); ++f; if(width < 0){ left = 1; width = -width; } }
    else while(*f >= '0' && *f <= '9') width = width*10 + (*f++ - '0');
    if(*f == '.'){
      ++f; prec = 0;
      if(*f == '*'){ prec = va_arg(ap, int); ++f; }
      else while(*f >= '0' && *f <= '9') prec = prec*10 + (*f++ - '0');
    }
    while(*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h' || *f == 't'){
      if(*f != 'h') lng = 1;
      ++f;
    }
    switch(*f){
    case 'd': case 'i': {
      if(lng){
	long v = va_arg(ap, long);
	vp_putu(o, v < 0 ? 0UL - (unsigned long)v : (unsigned long)v, 10, 0, v < 0, width, prec, left, zero, plus);
      }else{
	int v = va_arg(ap, int);
	vp_putu(o, v < 0 ? (unsigned long)(0u - (unsigned)v) : (unsigned long)v, 10, 0, v < 0, width, prec, left, zero, plus);
      }
      break;
    }
    case 'u': case 'x': case 'X': case 'o': {
      unsigned long v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned int);
      vp_putu(o, v, *f == 'u' ? 10 : (*f == 'o' ? 8 : 16), *f == 'X', 0, width, prec, left, zero, 0);
      break;
    }
    case 'c': {
      char c = (char)va_arg(ap, int);
      int i;
      if(!left) for(i = 1; i < width; ++i) vp_putc(o, ' ');
      vp_putc(o, c);
      if(left) for(i = 1; i < width; ++i) vp_putc(o, ' ');
      break;
    }
    case 's': {
      const char *s = va_arg(ap, char*);
      int k = 0, i;
      if(s == 0) s = "(null)";
      if(width > 0){
	while((prec < 0 || k < prec) && s[k] != '\0') ++k;
	if(!left) for(i = k; i < width; ++i) vp_putc(o, ' ');
      }
      for(k = 0; (prec < 0 || k < prec) && s[k] != '\0'; ++k) vp_putc(o, s[k]);
      if(left) for(i = k; i < width; ++i) vp_putc(o, ' ');
      break;
    }
    case 'p': (void)va_arg(ap, void*); vp_putc(o, '?'); break;
    case '%': vp_putc(o, '%'); break;
    default:
      __CPROVER_assert(0, "VP: conversion not in the printf model");
      __CPROVER_assume(0);
    }
    ++f;
  }
  if(o->size != 0)
    o->b[o->n < o->size - 1 ? o->n : o->size - 1] = '\0';
  return((int)o->n);
}

#ifdef VP_NO_FORMAT
/* the harness does not depend on formatted text: empty strings that fit */
int vsnprintf(char *b, size_t size, const char *f, va_list ap){ (void)f; if(size > 0) b[0] = '\0'; return(0); }
int snprintf(char *b, size_t size, const char *f, ...){ (void)f; if(size > 0) b[0] = '\0'; return(0); }
int sprintf(char *b, const char *f, ...){ (void)f; b[0] = '\0'; return(0); }
#else
int vsnprintf(char *b, size_t size, const char *f, va_list ap){
  struct vp_out o = {b, size, 0};
  return(vp_format(&o, f, ap));
}
int snprintf(char *b, size_t size, const char *f, ...){
  va_list ap;
  struct vp_out o = {b, size, 0};
  int n;
  va_start(ap, f);
  n = vp_format(&o, f, ap);
  va_end(ap);
  return(n);
}
int sprintf(char *b, const char *f, ...){
  va_list ap;
  struct vp_out o = {b, (size_t)0x7fffffff, 0};
  int n;
  va_start(ap, f);
  n = vp_format(&o, f, ap);
  va_end(ap);
  return(n);
}
#endif
#ifndef VP_OWN_STDIO
/* output to a stream: only the arguments are evaluated */
int fprintf(FILE *fp, const char *f, ...){ (void)fp; (void)f; return(1); }
int printf(const char *f, ...){ (void)f; return(1); }
int fputs(const char *s, FILE *fp){ (void)s; (void)fp; return(1); }
int puts(const char *s){ (void)s; return(1); }
int fflush(FILE *fp){ (void)fp; return(0); }
#endif

/* --------------------------------------------------- numeric conversions */
static unsigned long vp_strtou(const char *s, char **end, int base, int *neg,
			       int *any, int *ovf, unsigned long lim){
  const char *p = s;
  unsigned long v = 0;
  *neg = 0; *any = 0; *ovf = 0;
  while(vp_isspace((unsigned char)*p)) ++p;
  if(*p == '+') ++p; else if(*p == '-'){ *neg = 1; ++p; }
  if((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])){
    p += 2; base = 16;
  }else if(base == 0) base = (*p == '0') ? 8 : 10;
  while(1){
    int c = (unsigned char)*p, d;
    if(c >= '0' && c <= '9') d = c - '0';
    else if(c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    else break;
    if(d >= base) break;
    *any = 1;
    if(*ovf == 0){
      if(base == 10 ? (v > lim/10UL || (v == lim/10UL && (unsigned long)d > lim%10UL)) : v > (lim - (unsigned long)d)/(unsigned long)base)
	*ovf = 1;
      else
	v = v*(unsigned long)base + (unsigned long)d;
    }
    ++p;
  }
  if(end != 0) *end = (char*)(*any ? p : s);
  return(v);
}

long strtol(const char *s, char **end, int base){
  int neg, any, ovf;
  unsigned long v = vp_strtou(s, end, base, &neg, &any, &ovf, ULONG_MAX);
  if(!any) return(0);
  if(neg){
    if(ovf || v > (unsigned long)LONG_MAX + 1UL){ errno = ERANGE; return(LONG_MIN); }
    return((long)(0UL - v));
  }
  if(ovf || v > (unsigned long)LONG_MAX){ errno = ERANGE; return(LONG_MAX); }
  return((long)v);
}
long long strtoll(const char *s, char **end, int base){ return(strtol(s, end, base)); }
unsigned long strtoul(const char *s, char **end, int base){
  int neg, any, ovf;
  unsigned long v = vp_strtou(s, end, base, &neg, &any, &ovf, ULONG_MAX);
  if(!any) return(0);
  if(ovf){ errno = ERANGE; return(ULONG_MAX); }
  return(neg ? 0UL - v : v);
}
unsigned long long strtoull(const char *s, char **end, int base){ return(strtoul(s, end, base)); }
int atoi(const char *s){ return((int)strtol(s, 0, 10)); }
long atol(const char *s){ return(strtol(s, 0, 10)); }

/* --------------------------------------------------------------- sscanf */
static const char *vp_skip(const char *p){
  while(vp_isspace((unsigned char)*p)) ++p;
  return(p);
}
static int vp_vsscanf(const char *s, const char *f, va_list ap){
  int n = 0;
  const char *p = s;
  while(*f != '\0'){
    if(vp_isspace((unsigned char)*f)){
      p = vp_skip(p);
      ++f; continue;
    }
    if(*f != '%'){
      if(*p != *f) return((*p == '\0' && n == 0) ? EOF : n);
      ++p; ++f; continue;
    }
    ++f;
    int width = 0, lng = 0, hh = 0, sup = 0;
    if(*f == '*'){ sup = 1; ++f; }
    while(*f >= '0' && *f <= '9') width = width*10 + (*f++ - '0');
    while(*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j'){
      if(*f == 'h') ++hh; else lng = 1;
      ++f;
    }
    if(*f != 'c' && *f != 'n')
      p = vp_skip(p);
    if(*p == '\0' && *f != 'n') return(n == 0 ? EOF : n);
    if(*f == 's'){
      char *d = sup ? (char*)0 : va_arg(ap, char*);
      int k = 0;
      while((width == 0 || k < width) && *p != '\0' && !vp_isspace((unsigned char)*p)){
	if(!sup) d[k] = *p;
	++k; ++p;
      }
      if(!sup){ d[k] = '\0'; ++n; }
    }else if(*f == 'c'){
      char *d = sup ? (char*)0 : va_arg(ap, char*);
      int k = 0, w = (width == 0 ? 1 : width);
      while(k < w && *p != '\0'){ if(!sup) d[k] = *p; ++k; ++p; }
      if(k < w) return(n == 0 ? EOF : n);
      if(!sup) ++n;
    }else if(*f == 'd' || *f == 'u' || *f == 'i' || *f == 'x'){
      int neg = 0, any = 0, left = (width == 0 ? 1000 : width), ovf = 0;
      unsigned base = (*f == 'x') ? 16 : 10;
      unsigned long v = 0;
      if((*p == '+' || *p == '-') && left > 0){ neg = (*p == '-'); ++p; --left; }
      while(left > 0){
	int c = (unsigned char)*p, d;
	if(c >= '0' && c <= '9') d = c - '0';
	else if(base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10;
	else if(base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10;
	else break;
	any = 1;
	if(!ovf){
	  if(v > (ULONG_MAX - (unsigned long)d)/10UL) ovf = 1;
	  else v = v*base + (unsigned long)d;
	}
	++p; --left;
      }
      if(!any) return(n);
      if(*f == 'u' || *f == 'x'){
	if(ovf) v = ULONG_MAX; else if(neg) v = 0UL - v;
      }else{
	if(neg) v = (ovf || v > (unsigned long)LONG_MAX + 1UL) ? (unsigned long)LONG_MIN : 0UL - v;
	else if(ovf || v > (unsigned long)LONG_MAX) v = (unsigned long)LONG_MAX;
      }
      if(!sup){
	if(lng) *va_arg(ap, unsigned long*) = v;
	else if(hh == 1) *va_arg(ap, unsigned short*) = (unsigned short)v;
	else if(hh == 2) *va_arg(ap, unsigned char*) = (unsigned char)v;
	else *va_arg(ap, unsigned int*) = (unsigned int)v;
	++n;
      }
    }else if(*f == 'n'){
      *va_arg(ap, int*) = (int)(p - s);
    }else{
      __CPROVER_assert(0, "VP: conversion not in the scanf model");
      __CPROVER_assume(0);
    }
    ++f;
  }
  return(n);
}

int sscanf(const char *s, const char *f, ...){
  va_list ap;
  int n;
  va_start(ap, f);
  n = vp_vsscanf(s, f, ap);
  va_end(ap);
  return(n);
}

/* ------------------------------------------------------------- strings */
static int vp_in(const char *set, char c){
  while(*set != '\0'){ if(*set == c) return(1); ++set; }
  return(0);
}
size_t strspn(const char *s, const char *a){ size_t n = 0; while(s[n] != '\0' && vp_in(a, s[n])) ++n; return(n); }
size_t strcspn(const char *s, const char *r){ size_t n = 0; while(s[n] != '\0' && !vp_in(r, s[n])) ++n; return(n); }
char *strpbrk(const char *s, const char *a){ s += strcspn(s, a); return(*s == '\0' ? (char*)0 : (char*)s); }
char *strsep(char **sp, const char *delim){
  char *s = *sp, *p;
  if(s == 0) return(0);
  p = s + strcspn(s, delim);
  if(*p != '\0'){ *p = '\0'; *sp = p + 1; }else *sp = 0;
  return(s);
}
char *strtok_r(char *s, const char *delim, char **save){
  char *e;
  if(s == 0) s = *save;
  if(s == 0) return(0);
  s += strspn(s, delim);
  if(*s == '\0'){ *save = s; return(0); }
  e = s + strcspn(s, delim);
  if(*e != '\0'){ *e = '\0'; ++e; }
  *save = e;
  return(s);
}
char *strstr(const char *h, const char *n){
  if(*n == '\0') return((char*)h);
  for(; *h != '\0'; ++h){
    size_t i = 0;
    while(n[i] != '\0' && h[i] == n[i]) ++i;
    if(n[i] == '\0') return((char*)h);
  }
  return(0);
}
size_t strnlen(const char *s, size_t m){ size_t n = 0; while(n < m && s[n] != '\0') ++n; return(n); }
char *strndup(const char *s, size_t m){
  size_t n = strnlen(s, m), i;
  char *p = malloc(n + 1);
  if(p == 0) return(0);
  for(i = 0; i < n; ++i) p[i] = s[i];
  p[n] = '\0';
  return(p);
}
void *memchr(const void *s, int c, size_t n){
  const unsigned char *p = s;
  for(size_t i = 0; i < n; ++i) if(p[i] == (unsigned char)c) return((void*)(p + i));
  return(0);
}
void *memrchr(const void *s, int c, size_t n){
  const unsigned char *p = s;
  while(n > 0){ --n; if(p[n] == (unsigned char)c) return((void*)(p + n)); }
  return(0);
}
#endif
