/* products relayed by a master: src/slavenbs/framep.c, src/pctl.c, src/mfile.c */
#include "vp.h"
#include "globals.h"
#include "pctl.h"
#include "nbs1.h"
#include "vp_stats.h"
#include <stdarg.h>
#include <stddef.h>
int slavenbsproc(struct nbs1_packet_st *nbs);
int split_fbasename(struct pctl_element_st *pce);
struct nbsp_globals g;
#define NCH 2
#define MAXB 2
#define PRE 2
#define MAXC (PRE + MAXB)
static int rejected, savez, exists, badname;
int VP_STUB(np_regex_match)(char *n){ (void)n; return(rejected); }
int VP_STUB(savez_regex_match)(char *n){ (void)n; return(savez); }
int VP_STUB(file_exists)(char *n){ (void)n; return(exists); }
int VP_STUB(split_fbasename)(struct pctl_element_st *pce){ (void)pce; return(badname); }
int VP_STUB(oscompat_clock_gettime)(struct timespec *t){ t->tv_sec = 1000; t->tv_nsec = 0; return(0); }
#ifndef VP_NATIVE
void *realloc(void *p, size_t n){
  (void)p; (void)n;
  VP_ASSERT(0, "a memory file does not grow before it is full");
  VP_ASSUME(0);
  return(NULL);
}
#endif
int VP_STUB(adjust_memfile_size)(struct memfile_st *m, size_t n){ (void)m; (void)n; return(vp_nd_bool() ? -1 : 0); }
static struct pctldb_st pctldb;
static char frd[MAXB];
static struct memfile_st mf[NCH];
static char buf[NCH][32];
static struct { struct pctl_element_st e; char path[64]; } pce[NCH];
static struct pctl_element_st *pcep[NCH];
static struct pctl_st pctl;
static struct ref { int active, num, recv, len; unsigned int seq; int cat, chx; char data[MAXC]; } ref[NCH];
static struct ref ex[2]; static int exc[2];
static int nex, nsent;
static void expect(int ch, int complete){ ex[nex] = ref[ch]; exc[nex] = complete; ++nex; ref[ch].active = 0; }
int VP_STUB(pctldb_send_pce)(struct pctldb_st *db, struct pctl_element_st *p, int *dberror){
  struct ref *e;
  int k;
  (void)db;
  VP_ASSERT(nsent < nex, "nothing is delivered except a finished or cut off product");
  if(nsent >= nex) return(0);
  e = &ex[nsent];
  VP_ASSERT((p->f_complete != 0) == exc[nsent], "a product is delivered as complete exactly when it has all its blocks");
  ++nsent;
  VP_ASSERT(p->seq_number == e->seq && p->np_channel_index == e->chx && p->psh_product_category == e->cat && p->orig_seq_number == 0, "the product delivered is the one received from that master");
  VP_ASSERT((int)get_memfile_data_size(p->mf) == e->len, "the content has the size of the blocks received");
  k = vp_nd_range(0, MAXC - 1);
  VP_ASSERT(k >= e->len || p->mf->p[k] == e->data[k], "the content is that of the blocks in order");
  *dberror = 0;
  return(vp_nd_range(-1, 2));
}
void relayed(void){
  static struct nbs1_packet_st f;
  int i, st, seq, ch, ok, miss = 0, k, want;
  struct vp_stats old;
  for(i = 0; i < NCH; ++i){
    mf[i].p = buf[i];
    mf[i].allocsize = mf[i].maxallocsize = sizeof(buf[i]);
    pce[i].e.mf = &mf[i];
    pce[i].e.fpath_size = sizeof(pce[i].path);
    pcep[i] = &pce[i].e;
  }
  pctl.pctldb = &pctldb; pctl.activepce = pcep; pctl.num_activechannels = NCH;
  g.pctl = &pctl; g.memfile_minsize = sizeof(buf[0]); g.spooldir = "/s";
  for(i = 0; i < NCH; ++i){
    struct pctl_element_st *p;
    ref[i].active = vp_nd_bool();
    ref[i].seq = vp_nd_u32(); ref[i].cat = vp_nd_u8(); ref[i].chx = vp_nd_u8();
    ref[i].num = vp_nd_range(0, 65535); ref[i].recv = vp_nd_range(0, 65536); ref[i].len = vp_nd_range(0, PRE);
    for(k = 0; k < PRE; ++k) ref[i].data[k] = (char)vp_nd_u8();
    if(ref[i].active){
      p = open_pctl_activepce(&pctl, i);
      p->f_complete = 0; p->orig_seq_number = 0;
      p->seq_number = ref[i].seq; p->psh_product_category = ref[i].cat; p->np_channel_index = ref[i].chx;
      p->num_fragments = ref[i].num; p->recv_fragments = ref[i].recv;
      for(k = 0; k < ref[i].len; ++k) (void)write_memfile(p->mf, &ref[i].data[k], 1);
    }
  }
  g.slave_reject_duplicates = vp_nd_range(0, 1);
  rejected = vp_nd_range(-1, 1); savez = 0; exists = vp_nd_range(-1, 1); badname = vp_nd_bool();
  ch = vp_nd_range(0, NCH - 1);
  f.packet_size = 99;
  f.seq_number = vp_nd_u32(); f.psh_product_category = vp_nd_u8(); f.np_channel_index = vp_nd_u8();
  f.num_blocks = vp_nd_u16(); f.block_number = vp_nd_u16(); f.f_zip = vp_nd_bool();
  f.block = frd; f.block_size = vp_nd_range(0, MAXB);
  f.fbasename[0] = 'a'; f.fbasename[1] = '\0';
  frd[0] = (char)vp_nd_u8(); frd[1] = (char)vp_nd_u8();
  seq = f.seq_number;
  ok = 1; want = 0;
  if(f.block_number == 1){
    if(ref[ch].active){ expect(ch, 0); ++miss; VP_REACH("cut-off"); }
    if(badname){ ok = 0; ++miss; want = 2; }
    else if(rejected == 1 || (g.slave_reject_duplicates == 1 && exists == 0)){ ok = 0; want = 1; VP_REACH("not wanted"); }
    else{
      ref[ch].active = 1; ref[ch].seq = seq; ref[ch].num = f.num_blocks; ref[ch].recv = 0; ref[ch].len = 0;
      ref[ch].cat = f.psh_product_category; ref[ch].chx = f.np_channel_index;
    }
  }
  if(ok){
    if(!ref[ch].active || ref[ch].seq != (unsigned)seq){ ok = 0; want = 1; }
    else if(f.block_number - 1 != ref[ch].recv){ ok = 0; want = 2; ++miss; ref[ch].active = 0; VP_REACH("gap"); }
    else{
      ++ref[ch].recv;
      for(k = 0; k < (int)f.block_size; ++k) ref[ch].data[ref[ch].len++] = frd[k];
    }
  }
  if(ok && f.block_number == f.num_blocks){
    if(ref[ch].recv < ref[ch].num){ want = 2; ref[ch].active = 0; }
    else if(exists == 0) ref[ch].active = 0;
    else{ if(ref[ch].recv >= 2) VP_REACH("complete"); expect(ch, 1); }
  }
  old = vp_st;
  st = 0;
  for(i = 0; i < NCH; ++i)
    if(ch == i){
      f.slavenbs_reader_index = i;
      st = slavenbsproc(&f);
    }
  VP_ASSERT(nsent == nex, "a finished or cut off product is delivered at once, exactly once");
  if(want != 0) VP_ASSERT(st == want, "the verdict on a block is reported");
  else VP_ASSERT(st == 0 || (st == -1 && nex > 0 && exc[nex - 1]), "the verdict on a block is reported");
  VP_ASSERT(vp_st.missed - old.missed == miss, "each missed product is counted once");
  VP_ASSERT(vp_st.completed - old.completed == (nex > 0 && exc[nex - 1]), "each complete product is counted once");
  for(i = 0; i < NCH; ++i){
    struct pctl_element_st *p = get_pctl_activepce(g.pctl, i, ref[i].seq);
    VP_ASSERT((p != NULL) == ref[i].active, "a product is open exactly between its first block and its end");
    if(p != NULL){
      VP_ASSERT(p == pcep[i] && p->seq_number == ref[i].seq && p->f_complete == 0, "the open product of a master");
      VP_ASSERT(p->num_fragments == ref[i].num && p->recv_fragments == ref[i].recv, "the blocks of the open product are counted");
      VP_ASSERT((int)get_memfile_data_size(p->mf) == ref[i].len, "the size of the open product");
      for(k = 0; k < ref[i].len; ++k) VP_ASSERT(p->mf->p[k] == ref[i].data[k], "the content of the open product");
    }
  }
}
