/* src/slavet.c: the table of the master servers from its configuration text */
#include "vp.h"
#include <stdio.h>
#include <stdarg.h>
#include "strsplit.h"
#include "slavet.h"
#include "defaults.h"
/* memory: typed pools, every allocation can fail, each is given back once */
#define NS 18
static char str[NS][64]; static int slive[NS], ns, nall, oom;
static struct slave_table_st tab; static int tlive; static struct slave_element_st els[3]; static int elive; static struct strsplit_st sps; static int splive; static char *avs[12]; static int avlive;
static int noaa;
int feedmode_noaaport_enabled(void){ return(noaa); }
void *VP_STUB(malloc)(size_t n){
  if(nall++ == oom){ errno = ENOMEM; return(NULL); }
  if(n == sizeof(struct slave_table_st)){ VP_ASSERT(!tlive, "one table"); tlive = 1; return(&tab); }
  if(n == sizeof(struct strsplit_st)){ VP_ASSERT(!splive, "one split"); splive = 1; return(&sps); }
  VP_ASSERT(n <= 64 && ns < NS, "within the model");
  slive[ns] = 1;
  return(str[ns++]);
}
void *VP_STUB(calloc)(size_t a, size_t b){
  if(nall++ == oom){ errno = ENOMEM; return(NULL); }
  if(b == sizeof(char*)){ VP_ASSERT(a <= 12 && !avlive, "within the model"); avlive = 1; return(avs); }
  VP_ASSERT(b == sizeof(struct slave_element_st) && a <= 3 && !elive, "within the model"); elive = 1; return(els);
}
void VP_STUB(free)(void *p){
  int k;
  if(p == NULL) return;
  if(p == &tab){ VP_ASSERT(tlive == 1, "freed once"); tlive = 0; return; }
  if(p == els){ VP_ASSERT(elive == 1, "freed once"); elive = 0; return; }
  if(p == &sps){ VP_ASSERT(splive == 1, "freed once"); splive = 0; return; }
  if(p == avs){ VP_ASSERT(avlive == 1, "freed once"); avlive = 0; return; }
  for(k = 0; k < NS; ++k) if(p == str[k]){ VP_ASSERT(slive[k] == 1, "freed once"); slive[k] = 0; return; }
  VP_ASSERT(0, "something that was allocated is freed");
}
static int left(void){ int k, n = tlive + elive + splive + avlive; for(k = 0; k < NS; ++k) n += slive[k]; return(n); }
/* what is reported can be printed */
void VP_STUB(log_errx)(char *f, ...){
  va_list ap; int k; char *s;
  va_start(ap, f);
  for(k = 0; k < 90 && f[k] != 0; ++k) if(f[k] == '%'){
    ++k;
    if(f[k] == 's'){ s = va_arg(ap, char *); VP_ASSERT(s != NULL && s[0] >= 0 - 128, "a text is printed as a text"); }
    else if(f[k] == 'd') (void)va_arg(ap, int);
  }
  va_end(ap);
}
void VP_STUB(log_err)(char *s){ (void)s; }
void VP_STUB(log_err_open)(char *s){ (void)s; }
static char text[64]; static int tn;
static void put(const char *s){ int k; for(k = 0; s[k] != 0; ++k) text[tn++] = s[k]; text[tn] = 0; }
static char grp[] = "g", sf[] = "s", dport[] = "q";
static struct slave_options_st def;
static const char *OPT[4] = {"7", "", "-12", "30"}; static const int OV[4] = {7, -1000, -12, 30};
static int typ[3], nfs[3], h[3], pt[3], rot[3];
/* one entry: type, then nf fields, of which the first (two) may be empty */
static int entry(int e, const char *t, int ty, int nf, int f1, int f2, int r, int sep){
  int k, l0 = tn; const char *sp = sep ? ":" : ",";
  put(t);
  for(k = 0; k < nf; ++k){
    put(sp);
    if(k == 0) put(f1 ? "h" : "");
    else if(k == 1 && ty != 3) put(f2 ? "p" : "");
    else put(OPT[(r + k) % 4]);
  }
  /* an entry as long as one of the structures would be taken for it by the model */
  if((tn - l0 == 15 || tn - l0 == 23) && nf > 0 && f1){ int j; for(j = tn; j > l0 + 2; --j) text[j] = text[j - 1]; text[l0 + 2] = 'h'; text[++tn] = 0; }
  if((tn - l0 == 15 || tn - l0 == 23) && !f1) put("0");
  typ[e] = ty; nfs[e] = nf; h[e] = f1; pt[e] = f2; rot[e] = r;
  if(ty < 1 || ty > 3) return(0);
  if(ty == 3) return(nf >= 1 && nf <= 6 && f1);
  if(nf < 1 || nf > 7 || !f1) return(0);
  if(nf == 2 && !f2) return(0);
  return(1);
}
static void isopt(struct slave_element_st *s, int e){
  int d[5], k, o; struct slave_options_st *p = &s->options;
  d[0] = 11; d[1] = 12; d[2] = 13; d[3] = 14; d[4] = 15;
  o = typ[e] == 3 ? 1 : 2;
  for(k = 0; k < 5; ++k) if(k + o < nfs[e] && OV[(rot[e] + k + o) % 4] != -1000) d[k] = OV[(rot[e] + k + o) % 4];
  VP_ASSERT(p->slave_read_timeout_secs == d[0] && p->slave_read_timeout_retry == d[1] && p->slave_reopen_timeout_secs == d[2] && p->slave_so_rcvbuf == d[3] && p->slave_stats_logperiod_secs == d[4], "each option is as written or the default");
  VP_ASSERT(p->infifo_mode == 0620 && p->infifo_grp[0] == 'g' && p->infifo_grp[1] == 0 && p->slavestatsfile[0] == 's' && p->slavestatsfile[1] == 0, "the other settings are the defaults");
}
static void iselem(int i, int e, int reader){
  struct slave_element_st *s = &els[i];
  VP_ASSERT(s->slavetype == typ[e] && s->slave_fd == -1 && s->f_slave_thread_created == 0, "the kind written");
  if(typ[e] == 3) VP_ASSERT(s->infifo != NULL && s->infifo[0] == 'h' && s->mastername == NULL && s->masterport == NULL, "the fifo written");
  else{
    VP_ASSERT(s->infifo == NULL && s->mastername[0] == 'h' && (s->mastername[1] == 0 || s->mastername[1] == 'h'), "the host written");
    VP_ASSERT(s->masterport[0] == (nfs[e] >= 2 && pt[e] ? 'p' : 'q') && s->masterport[1] == 0, "the port written or the default");
  }
  VP_ASSERT(s->slavenbs_reader_index == (typ[e] == 1 ? reader : -1), "each reader has a queue of its own");
  isopt(s, e);
}
static void defaults(void){
  def.infifo_mode = 0620; def.infifo_grp = grp; def.slavestatsfile = sf; def.slave_masterport = dport;
  def.slave_read_timeout_secs = 11; def.slave_read_timeout_retry = 12; def.slave_reopen_timeout_secs = 13; def.slave_so_rcvbuf = 14; def.slave_stats_logperiod_secs = 15;
}
static void run(int ok, int n, int f){
  struct slave_table_st *t = NULL; int st, k, r;
  defaults(); oom = f;
  if(tn == 15 || tn == 23) put("|");
  st = slave_table_create(&t, text, &def);
  if(oom >= 0 && nall > oom) ok = 0;
  if(!ok){
    VP_ASSERT(st != 0 && t == NULL, "a bad list is refused as a whole");
    VP_ASSERT(left() == 0, "nothing is left behind");
    return;
  }
  VP_ASSERT(st == 0 && t == &tab && t->numslaves == n, "every entry is in the table");
  VP_ASSERT(left() > 0 && !splive && !avlive, "only the table is kept");
  r = noaa ? NPCAST_NUM_CHANNELS : 0;
  for(k = 0; k < n; ++k){ iselem(k, k, r); if(typ[k] == 1) ++r; }
  VP_ASSERT(t->num_slavenbs_readers == r - (noaa ? NPCAST_NUM_CHANNELS : 0), "the readers are counted");
  slave_table_destroy(t);
  VP_ASSERT(left() == 0, "everything is freed");
#ifndef NOREACH
  VP_REACH("accepted");
#endif
}
#ifdef ENTRY
#if ENTRY == 0
static const char *TS[6] = {"0", "4", "", "x", "-1", "1x"};
#endif
void master(void){
  int c = vp_nd_range(0, 9*4*2 - 1), i = 0, nf, a, r;
  noaa = 0;
  for(nf = 0; nf < 9; ++nf) for(a = 0; a < 4; ++a) for(r = 0; r < 2; ++r){
    if(c == i ONLY){
#if ENTRY == 0
      if(entry(0, TS[(nf + a) % 6], 0, nf, a & 1, a/2, r, a/2)) VP_ASSERT(0, "model");
      if(tn == 0) VP_DONE();
      run(0, 1, -1);
#else
      static char ty[2] = {'0' + ENTRY, 0};
      run(entry(0, ty, ENTRY, nf, a & 1, a/2, r*2, r), 1, -1);
#endif
      VP_DONE();
    }
    ++i;
  }
}
#else
static const char *S1[6] = {"|", " ", "\t", "\n", "| |", "\n\n"};
static void two(int s, int t1, int t2, int bad, int nn, int f){
  int ok = 1; static char ty[2];
  noaa = nn;
  if(s & 1) put("|");
  ty[0] = (char)('0' + t1); ok &= entry(0, ty, t1, bad == 1 ? 0 : 1 + (s + t1) % 4, 1, 1, s, 0);
  put(S1[s]);
  ty[0] = (char)('0' + t2); ok &= entry(1, ty, t2, bad == 2 ? 8 : 2, 1, 1, 1, 1);
  if(s & 2) put(S1[s]);
  run(ok, 2, f);
}
void masters(void){
  int c = vp_nd_range(0, 6*9*3 + 2*26 + 1), i = 0, s, t, b, f;
  for(s = 0; s < 6; ++s) for(t = 0; t < 9; ++t) for(b = 0; b < 3; ++b){ if(c == i && (s + t) % 3 == 0 ONLY1){ two(s, 1 + t % 3, 1 + t/3, b, s & 1, -1); VP_DONE(); } ++i; }
  for(s = 0; s < 2; ++s) for(f = 0; f < 26; ++f){ if(c == i ONLY2){ two(0, s ? 3 : 1, s ? 1 : 2, 0, 0, f); VP_DONE(); } ++i; }
  if(c == i ONLY2){ put("| \t"); run(0, 0, -1); VP_DONE(); }
  if(c == i + 1 ONLY2){ run(0, 0, -1); VP_DONE(); }
}
#endif
