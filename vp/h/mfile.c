/* memory files: src/mfile.c */
#include "vp.h"
#include "mfile.h"

#define CAP 4			/* room before the operation */
#ifndef MAXW
#define MAXW 9			/* bytes appended: up to two growths */
#endif
#define TOP (CAP + MAXW)

static int failed;
#ifndef VP_NATIVE
/* the blocks the allocator hands out, with their exact sizes */
static char b4[4], b8[8], b12[12], b16[16], b32[32], bx[64];
static char old[TOP];
#endif

void *VP_STUB(realloc)(void *p, size_t n){
  if(vp_nd_bool()){ failed = 1; return(NULL); }
#ifdef VP_NATIVE
  return(realloc(p, n));
#else
  char *q;
  size_t i, o;
  VP_ASSUME(n <= sizeof(bx));
  q = (n == 4) ? b4 : (n == 8) ? b8 : (n == 12) ? b12 : (n == 16) ? b16 : (n == 32) ? b32 : bx;
  if((char*)p == q) return(q);
  o = __CPROVER_OBJECT_SIZE(p);
  for(i = 0; i < CAP; ++i)		/* never more than this was stored before */
    if(i < o && i < n) q[i] = ((char*)p)[i];
  return(q);
#endif
}

/* any reachable state: some bytes stored, some of them read */
static struct memfile_st m;
static char all[TOP + 1];
static int size0, nread0;
static void state(void){
  int k;
#ifdef VP_NATIVE
  m.p = malloc(CAP);
#else
  m.p = b4;
#endif
  m.allocsize = CAP;
  m.maxallocsize = vp_nd_bool() ? CAP : 2*CAP;
  size0 = vp_nd_range(0, CAP);
  nread0 = vp_nd_range(0, CAP);
  VP_ASSUME(nread0 <= size0);
  m.size = size0; m.nread = nread0;
  for(k = 0; k < CAP; ++k){
    all[k] = (char)vp_nd_u8();
    if(k < size0) m.p[k] = all[k];
  }
}

void mfile_append(void){
  char d[MAXW];
  int k, n, r, total, fixed = vp_nd_bool(), got;
  void *rp = NULL;

  state();
  total = size0;
  n = vp_nd_range(0, MAXW);
  for(k = 0; k < MAXW; ++k) d[k] = (char)vp_nd_u8();
  if(fixed){
    r = write_memfile_fixed(&m, d, n);
    VP_ASSERT((r == 0) == (size0 + n <= CAP), "a fixed memory file accepts exactly what fits");
    VP_ASSERT(r == 0 || r == 1, "a fixed memory file does not grow");
  }else{
    r = write_memfile(&m, d, n);
    VP_ASSERT(r == 0 || failed, "an append fails only without memory");
    VP_ASSERT(r <= 0, "an append that fails says so");
    if(failed){ VP_ASSERT(r < 0, "an append without memory is reported"); VP_REACH("append-nomem"); }
  }
  if(r == 0){
    for(k = 0; k < n; ++k) all[total + k] = d[k];
    total += n;
    if(n == MAXW && size0 == CAP) VP_REACH("append-grow-twice");
  }
  VP_ASSERT(get_memfile_data_size(&m) == (size_t)total, "the size is the number of bytes stored");
  VP_ASSERT(get_memfile_allocated_size(&m) >= m.size, "the data fits the allocation");
  for(k = 0; k < TOP; ++k)
    VP_ASSERT(k >= total || m.p[k] == all[k], "the content is the concatenation of what was appended");
  /* reading goes on where it was */
  n = vp_nd_range(0, TOP + 1);
  r = read_memfile(&m, &rp, n);
  got = (n <= total - nread0) ? n : total - nread0;
  VP_ASSERT(r == got, "a read returns what was asked for or what is left");
  k = vp_nd_range(0, TOP - 1);
  VP_ASSERT(k >= r || ((char*)rp)[k] == all[nread0 + k], "what is read is what was stored, in order");
  k = read_memfile(&m, &rp, TOP);
  VP_ASSERT(k == total - nread0 - got, "each byte is read once");
  if(n > 3 && r == n && k > 0) VP_REACH("append-read");
  close_memfile(&m);
  VP_ASSERT(open_memfile(&m) == 0, "a closed memory file can be opened");
  VP_ASSERT(get_memfile_data_size(&m) == 0 && read_memfile(&m, &rp, 1) == 0, "a closed memory file is empty");
}

/* resizing ahead of the data never loses what is stored */
void mfile_adjust(void){
  char d[MAXW];
  int k;
  state();
  size_t est = vp_nd_urange(0, 16);
  /* callers adjust the size of an empty file, or for more than it holds */
  VP_ASSUME(est > (size_t)size0 || size0 == 0);
  VP_ASSUME(size0 == 0 || est*2 >= CAP);
  k = adjust_memfile_size(&m, est);
  VP_ASSERT(k == 0 || failed, "an adjustment fails only without memory");
  VP_ASSERT(k == 0 || k == -1, "an adjustment without memory is reported");
  VP_ASSERT(failed || est <= get_memfile_allocated_size(&m), "the estimate fits the allocation");
  VP_ASSERT(m.size == (size_t)size0 && m.nread == (size_t)nread0, "an adjustment keeps the data size");
  for(k = 0; k < size0; ++k) VP_ASSERT(m.p[k] == all[k], "an adjustment keeps the data");
  if(!failed && est == 16) VP_REACH("adjust-up");
  if(!failed && est == 1) VP_REACH("adjust-down");
#ifndef VP_NATIVE
  VP_ASSERT(m.allocsize <= __CPROVER_OBJECT_SIZE(m.p), "the allocation recorded is the one made");
#endif
  (void)d;
}

/* frames kept apart */
#define NF 2
#define MF 2
void mfile_frames(void){
  static char store[56];
  static struct memfile_st mf;
  char d[NF][MF];
  int n[NF], c[NF], f, k, r, fc;
  char *p;

  mf.p = store;
  mf.allocsize = mf.maxallocsize = sizeof(store);
  for(f = 0; f < NF; ++f){
    n[f] = vp_nd_range(1, MF);
    c[f] = vp_nd_bool();
    for(k = 0; k < MF; ++k) d[f][k] = (char)vp_nd_u8();
    if(vp_nd_bool()){
      r = write_memframe(&mf, d[f], n[f], c[f]);
    }else{
      /* in parts */
      int h = vp_nd_range(0, n[f]);
      r = write_memframe_info(&mf, n[f], c[f]);
      if(r != -1) r = write_memframe_data(&mf, d[f], h);
      if(r != -1) r = write_memframe_data(&mf, d[f] + h, n[f] - h);
    }
    VP_ASSERT(r >= 0, "a frame is stored when there is room");
    VP_ASSUME(!failed);
  }
  for(f = 0; f < NF; ++f){
    r = get_memframe(&mf, &p, &fc);
    VP_ASSERT(r == n[f], "a frame comes back with its size");
    VP_ASSERT(fc == c[f], "a frame comes back with its compression flag");
    for(k = 0; k < MF; ++k)
      VP_ASSERT(k >= r || p[k] == d[f][k], "a frame comes back as stored");
  }
  VP_ASSERT(get_memframe(&mf, &p, &fc) == 0, "after the last frame there is nothing");
  VP_REACH("frames");
}
