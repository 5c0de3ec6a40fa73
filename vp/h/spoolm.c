/* src/nbspmspoolbdb.c: the keys, the recovery from a lack of memory and the reading of the spool */
#include "vp.h"
#include <stdio.h>
#include <db.h>
#include "globals.h"
#include "libspoolbdb/mspoolbdb.h"
#include "nbspmspoolbdb.h"
struct nbsp_globals g;
static struct mspoolbdb_st m1, m2, *cur;
static int nins, insst[3], nold, oldst, nall, allst, order[5], no, opst, nop, ncl, clst, sdnow; static char want[16], dat[4]; static size_t dsz, rsz;
int VP_STUB(mspoolbdb_insert)(struct mspoolbdb_st *m, char *k, void *d, uint32_t n){
  VP_ASSERT(m == cur && d == dat && n == dsz && nins < 3 && strcmp(k, want) == 0, "inserted under the last part of its name");
  order[no++] = 1; return(insst[nins++]);
}
int VP_STUB(mspoolbdb_truncate_oldest)(struct mspoolbdb_st *m){ VP_ASSERT(m == cur && no < 5, "this spool"); order[no++] = 2; ++nold; return(oldst); }
int VP_STUB(mspoolbdb_truncate)(struct mspoolbdb_st *m){ VP_ASSERT(m == cur && no < 5, "this spool"); order[no++] = 3; ++nall; return(allst); }
int VP_STUB(mspoolbdb_slots_open)(struct mspoolbdb_st *m, char *k, int *sd){
  VP_ASSERT(m == cur && strcmp(k, want) == 0, "read under the last part of its name"); ++nop; if(opst == 0) *sd = sdnow; return(opst); }
int VP_STUB(mspoolbdb_slots_close)(struct mspoolbdb_st *m, int sd){ VP_ASSERT(m == cur && sd == sdnow, "the slot opened"); ++ncl; return(clst); }
size_t VP_STUB(mspoolbdb_slots_read)(struct mspoolbdb_st *m, int sd, void *d, size_t n){ VP_ASSERT(m == cur && sd == sdnow && d == dat && n == 4, "the slot opened"); return(rsz); }
size_t VP_STUB(mspoolbdb_slots_datasize)(struct mspoolbdb_st *m, int sd){ VP_ASSERT(m == cur && sd == sdnow, "the slot opened"); return(rsz); }
char *VP_STUB(db_strerror)(int e){ static char s[] = "e"; (void)e; return(s); }
/* a/b_KEY */
static char path[24];
static void name(int n, int pre){
  int k, i = 0;
  if(pre & 1){ path[i++] = 'a'; path[i++] = '/'; }
  path[i++] = 'b';
  if(pre & 2){ path[i++] = '_'; path[i++] = 'c'; }
  path[i++] = '_';
  for(k = 0; k < n; ++k){ char c = (char)('0' + (3*k + 1) % 10); path[i++] = c; want[k] = c; }
  path[i] = 0; want[n] = 0;
}
static const int STS[4] = {0, ENOMEM, 5, DB_NOTFOUND};
static void insert(int which, int i0, int i1, int i2, int ol, int al, int n, int pre){
  int st, w[3], e = 0, ex[5], k, fin;
  g.mspoolbdb = &m1; g.cspoolbdb = &m2; cur = which ? &m2 : &m1;
  insst[0] = w[0] = STS[i0]; insst[1] = w[1] = STS[i1]; insst[2] = w[2] = STS[i2]; oldst = STS[ol]; allst = STS[al];
  name(n, pre);
  dsz = vp_nd_u32();
  st = which ? nbsp_cspoolbdb_insert(path, dat, dsz) : nbsp_mspoolbdb_insert(path, dat, dsz);
  ex[e++] = 1; fin = w[0];
  if(fin == ENOMEM){ ex[e++] = 2; fin = oldst; if(fin == 0){ ex[e++] = 1; fin = w[1]; } }
  if(fin == ENOMEM){ ex[e++] = 3; fin = allst; if(fin == 0){ ex[e++] = 1; fin = w[e == 5 ? 2 : 1]; } }
  VP_ASSERT(no == e, "room is made step by step, and no more than needed");
  for(k = 0; k < 5; ++k) if(k < e) VP_ASSERT(order[k] == ex[k], "room is made step by step, and no more than needed");
  VP_ASSERT(st == (fin == 0 ? 0 : -1), "success only when it was inserted");
  if(e == 5 && st == 0) VP_REACH("inserted after emptying everything");
}
static void get(int which, int o, int cl, int n, int pre){
  int st; size_t sz = 99;
  g.mspoolbdb = &m1; g.cspoolbdb = &m2; cur = which ? &m2 : &m1;
  opst = STS[o]; clst = STS[cl]; sdnow = vp_nd_range(0, 5); rsz = vp_nd_range(0, 4);
  name(n, pre);
  st = which ? nbsp_cspoolbdb_open(path) : nbsp_mspoolbdb_open(path);
  VP_ASSERT(st == (opst == 0 ? sdnow : opst == DB_NOTFOUND ? -2 : -1) && nop == 1 && ncl == 0, "a slot, not found or an error");
  if(st >= 0){
    VP_ASSERT((which ? nbsp_cspoolbdb_datasize(st) : nbsp_mspoolbdb_datasize(st)) == rsz, "its size");
    VP_ASSERT((which ? nbsp_cspoolbdb_read(st, dat, 4) : nbsp_mspoolbdb_read(st, dat, 4)) == rsz, "its content");
    VP_ASSERT((which ? nbsp_cspoolbdb_close(st) : nbsp_mspoolbdb_close(st)) == (clst ? -1 : 0) && ncl == 1, "given back");
  }
  nop = ncl = 0;
  st = which ? nbsp_cspoolbdb_fpathsize(path, &sz) : nbsp_mspoolbdb_fpathsize(path, &sz);
  VP_ASSERT(st == (opst == 0 ? 0 : -1) && nop == 1 && ncl == (opst == 0) && sz == (opst == 0 ? rsz : 99), "the size of a product is told and the slot given back");
}
void insertkey(void){
  int c = vp_nd_range(0, 2*27*9 + 2*3*3 - 1), i = 0, wh, a, b;
  for(wh = 0; wh < 2; ++wh) for(a = 0; a < 27; ++a) for(b = 0; b < 9; ++b){ if(c == i){ insert(wh, a % 3, a/3 % 3, a/9, b % 3, b/3, 1 + (a + b) % 10, (a + b) % 4); VP_DONE(); } ++i; }
  for(wh = 0; wh < 2; ++wh) for(a = 0; a < 3; ++a) for(b = 0; b < 3; ++b){ if(c == i){ get(wh, a == 1 ? 3 : a, b, 1 + (a*3 + b), (a + b) % 4); VP_DONE(); } ++i; }
}
