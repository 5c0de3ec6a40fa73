/* statistics: src/stats.c with src/framep.c */
#include <stdio.h>
#include <stdarg.h>
#include <time.h>
#include "vp.h"
#include "globals.h"
#include "framep.h"
#include "stats.h"
struct nbsp_globals g;
static time_t tnow;
time_t VP_STUB(time)(time_t *p){ if(p != NULL) *p = tnow; return(tnow); }
static FILE *fake = (FILE*)&fake;
static int oerr;
FILE *VP_STUB(fopen)(const char *n, const char *m){ (void)n; VP_ASSERT(m[0] == 'a', "the record is added to the file"); return(oerr ? NULL : fake); }
int VP_STUB(fclose)(FILE *f){ (void)f; return(0); }
static uint64_t rec[24];
static int nrec, nnl;
int VP_STUB(fprintf)(FILE *f, const char *fmt, ...){
  va_list ap;
  int i;
  VP_ASSERT(f == fake, "the record goes to the statistics file");
  va_start(ap, fmt);
  for(i = 0; fmt[i] != '\0'; ++i){
    if(fmt[i] == '\n') ++nnl;
    if(fmt[i] != '%') continue;
    ++i;
    VP_ASSERT(nrec < 20, "one value for each counter");
    if(fmt[i] == 'j' || fmt[i] == 'l'){ ++i; rec[nrec++] = va_arg(ap, unsigned long); }
    else if(fmt[i] == 'u' || fmt[i] == 'd') rec[nrec++] = va_arg(ap, unsigned int);
  }
  va_end(ap);
  return(1);
}
#define C(x) ((unsigned int*)&g.nbspstats.x)
static unsigned int *ctr[16];
static const int NC = 16;
static unsigned int c0[16];
static void table(void){
  int i = 0;
  ctr[i++] = C(frames_received); ctr[i++] = C(frames_processed); ctr[i++] = C(frames_jumps); ctr[i++] = C(frames_bad);
  ctr[i++] = C(frames_data_size); ctr[i++] = C(products_transmitted); ctr[i++] = C(products_completed); ctr[i++] = C(products_missed);
  ctr[i++] = C(products_retransmitted); ctr[i++] = C(products_retransmitted_c); ctr[i++] = C(products_retransmitted_p);
  ctr[i++] = C(products_retransmitted_i); ctr[i++] = C(products_retransmitted_r); ctr[i++] = C(products_rejected);
  ctr[i++] = C(products_aborted); ctr[i++] = C(products_bad);
  for(i = 0; i < NC; ++i) *ctr[i] = c0[i] = vp_nd_u32();
}
static void expect(int which, unsigned int by){
  int i;
  for(i = 0; i < NC; ++i) VP_ASSERT(*ctr[i] == c0[i] + (i == which ? by : 0), "each event is counted once, in its own counter");
}
#ifdef COUNTERS
void counters(void){
  unsigned int n = vp_nd_u32();
  int i, k, orig = vp_nd_range(-1, 2);
  table();
  k = vp_nd_range(0, 14);
  switch(k){
  case 0: update_stats_frames_received(n); c0[4] += n; expect(0, 1); break;
  case 1: update_stats_frames(0); expect(1, 1); break;
  case 2: update_stats_frames_jumps(); expect(2, 1); break;
  case 3: update_stats_frames(orig); expect(orig == 0 ? 1 : 3, 1); break;
  case 4: update_stats_products_transmitted(); expect(5, 1); break;
  case 5: update_stats_products_completed(); expect(6, 1); break;
  case 6: update_stats_products_missed(); expect(7, 1); break;
  case 7: update_stats_products_retransmitted(); expect(8, 1); break;
  case 8: update_stats_products_retransmitted_c(); expect(9, 1); break;
  case 9: update_stats_products_retransmitted_pi(orig); expect(orig == 0 ? 11 : 10, 1); break;
  case 10: update_stats_products_recovered(); expect(12, 1); break;
  case 11: update_stats_products_rejected(); expect(13, 1); break;
  case 12: update_stats_products_aborted(); expect(14, 1); break;
  case 13: update_stats_products(orig); expect(orig == 0 ? -1 : 15, 1); break;
  default: {
    unsigned int idx0 = g.nbspstats.products_rtx_index = vp_nd_u32(), q, r;
    tnow = vp_nd_range(0, 2147483647);
    oerr = vp_nd_bool();
    VP_ASSUME(c0[8] < 2000 && c0[5] < 2000);
    nbspstats_update();
    for(i = 0; i < NC; ++i) VP_ASSERT(*ctr[i] == 0, "counting starts again after each report");
    if(!oerr){
      VP_ASSERT(nrec == 17 && nnl == 1, "one value for each counter");
      VP_ASSERT(rec[0] == (uint64_t)tnow, "the report has the time");
      for(i = 0; i < NC; ++i) VP_ASSERT(rec[i + 1] == c0[i], "the report has the counters, in the documented order");
      VP_REACH("reported");
    }else
      VP_ASSERT(nrec == 0, "nothing is written");
    if(c0[5] == 0) VP_ASSERT(nbspstats_get_rtx_index() == idx0, "the retransmission index is kept when nothing was transmitted");
    else{
      q = nbspstats_get_rtx_index();
      /* 1000 r = q t + rest, 0 <= rest < t */
      VP_ASSERT(q*c0[5] <= c0[8]*1000 && c0[8]*1000 - q*c0[5] < c0[5], "the retransmission index is the number per thousand");
    }
  }}
}
#endif
#ifdef FRAMES
static int ust;
static struct sbn_frame sf;
int VP_STUB(sbn_unpack_frame)(struct sbn_frame *f){ (void)f; return(ust); }
int e_sbn_unpack_frame(struct sbn_frame *sbnf);
int e_start_activepce(struct sbn_frame *sbnf);
extern struct frame_processor_st { struct frame_level_header fh[NPCAST_NUM_CHANNELS]; } gframep;
int sst;
int VP_STUB(start_activepce)(struct sbn_frame *f){ (void)f; return(sst); }
static struct pctl_element_st pce0;
struct pctl_element_st *VP_STUB(get_pctl_activepce)(struct pctl_st *p, int ch, unsigned int s){ (void)p; (void)ch; (void)s; return(&pce0); }
void VP_STUB(close_pctl_activepce)(struct pctl_st *p, int i){ (void)p; (void)i; }
void frames(void){
  unsigned int last, cur, other;
  int ch = vp_nd_range(0, NPCAST_NUM_CHANNELS - 1), i, st, jump;
  table();
  ust = vp_nd_range(0, 3);
  sf.rawdata_size = vp_nd_range(0, 5200);
  cur = sf.fh.sbn_seq_number = vp_nd_u32();
  sf.fh.sbn_command = vp_nd_range(0, 10);
  last = vp_nd_u32(); other = vp_nd_u32();
  for(i = 0; i < NPCAST_NUM_CHANNELS; ++i) gframep.fh[i].sbn_seq_number = (i == ch) ? last : other;
  sf.np_channel_index = ch;
  st = e_sbn_unpack_frame(&sf);
  VP_ASSERT(st == ust, "the verdict is handed on");
  jump = last > 0 && last < 0xffffffffU && cur > last + 1 && (ust == 0 || ust == 3);
  VP_ASSUME(last < 0xffffffffU);
  c0[0] += 1; c0[4] += sf.rawdata_size;
  c0[(ust == 0 || ust == 3) ? 1 : 3] += 1;
  expect(2, jump);
  for(i = 0; i < NPCAST_NUM_CHANNELS; ++i)
    VP_ASSERT(gframep.fh[i].sbn_seq_number == (i != ch ? other : (ust == 0 || ust == 3) ? cur : last), "the sequence is followed on each channel apart");
  if(jump) VP_REACH("jump");
}
void starts(void){
  int st;
  table();
  sst = vp_nd_range(-1, 4);
  sf.pdh.block_number = vp_nd_range(0, 2);
  st = e_start_activepce(&sf);
  if(sf.pdh.block_number != 0){ expect(-1, 0); VP_ASSERT(st != 0, "a first frame which is not the first is refused"); return; }
  VP_ASSERT(st == sst, "the verdict is handed on");
  c0[5] += 1;
  if(sst == 4) expect(13, 1);
  else if(sst == 0) expect(-1, 0);
  else expect(7, 1);
  if(sst == 4) VP_REACH("rejected");
}
#endif
