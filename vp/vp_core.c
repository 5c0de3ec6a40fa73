/* compiled into every harness, both ways */
#include "vp.h"

#ifdef VP_NATIVE
#include <stdio.h>
#include <unistd.h>
static FILE *vp_f;
static int vp_loaded;

static void vp_load(void){
  char *fn;
  if(vp_loaded) return;
  vp_loaded = 1;
  fn = getenv("VP_VALUES");
  if(fn != NULL) vp_f = fopen(fn, "r");
}

uint64_t vp_nd_u64(void){
  unsigned long long v = 0;
  vp_load();
  if((vp_f == NULL) || (fscanf(vp_f, "%llx", &v) != 1))
    v = 0;
  return((uint64_t)v);
}

void vp_native_fail(const char *msg, const char *file, int line){
  char b[1024];
  int n = snprintf(b, sizeof(b), "VP-FAIL:%s (%s:%d)\n", msg, file, line);
  if(write(1, b, n) < 0){}
  _exit(101);
}
void vp_native_reach(const char *name){
  char b[1024];
  int n = snprintf(b, sizeof(b), "VP-REACH:%s\n", name);
  if(write(1, b, n) < 0){}
}
void vp_native_diverged(const char *what, const char *file, int line){
  char b[1024];
  int n = snprintf(b, sizeof(b), "VP-DIVERGED:%s (%s:%d)\n", what, file, line);
  if(write(1, b, n) < 0){}
  _exit(102);
}
#else
uint64_t nondet_vp_u64(void);
uint64_t vp_nd_last;
uint64_t vp_nd_u64(void){
  uint64_t v = nondet_vp_u64();
  vp_nd_last = v;
  return(v);
}
#endif

uint32_t vp_nd_u32(void){ return((uint32_t)vp_nd_u64()); }
int vp_nd_int(void){ return((int)(uint32_t)vp_nd_u64()); }
uint16_t vp_nd_u16(void){ return((uint16_t)vp_nd_u64()); }
uint8_t vp_nd_u8(void){ return((uint8_t)vp_nd_u64()); }
int vp_nd_bool(void){ return((int)(vp_nd_u64() & 1)); }

int vp_nd_range(int a, int b){
  int v = vp_nd_int();
  VP_ASSUME((v >= a) && (v <= b));
  return(v);
}

uint64_t vp_nd_urange(uint64_t a, uint64_t b){
  uint64_t v = vp_nd_u64();
  VP_ASSUME((v >= a) && (v <= b));
  return(v);
}

void vp_nd_bytes(void *p, size_t n){
  char *b = (char*)p;
  for(size_t i = 0; i < n; ++i)
    b[i] = (char)vp_nd_u64();
}

size_t vp_nd_str(char *p, size_t maxlen){
  size_t n = (size_t)vp_nd_u64();
  VP_ASSUME(n <= maxlen);
  for(size_t i = 0; i < maxlen; ++i){
    char c = (char)vp_nd_u64();
    if(i < n){
      VP_ASSUME(c != '\0');
      p[i] = c;
    }else
      p[i] = '\0';
  }
  p[maxlen] = '\0';
  return(n);
}

void vp_nd_stralpha(char *p, size_t len, const char *alphabet){
  size_t na = 0;
  while(alphabet[na] != '\0') ++na;
  for(size_t i = 0; i < len; ++i){
    size_t k = (size_t)vp_nd_u64();
    VP_ASSUME(k < na);
    p[i] = alphabet[k];
  }
  p[len] = '\0';
}

#ifdef VP_NATIVE
extern void VP_ENTRY(void);
void vp_native_done(void){
  if(write(1, "VP-END\n", 7) < 0){}
  _exit(0);
}
int main(void){
  VP_ENTRY();
  if(write(1, "VP-END\n", 7) < 0){}
  _exit(0);
}
#endif
