/* product assembly in the broadcast reader: src/framep.c, src/pctl.c, src/mfile.c */
#include "vp.h"
#include "globals.h"
#include "sbn.h"
#include "nbsp.h"
#include "framep.h"
#include "vp_stats.h"

struct nbsp_globals g;

#ifndef K
#define K 5
#endif
#define NCH 2
#define MAXB 2
#define PRE 2			/* content before the first frame */
#define MAXC (PRE + K*MAXB)

/* --- environment --- */
static int unpack_status, hdr_status, rejected, savez;
int VP_STUB(sbn_unpack_frame)(struct sbn_frame *f){ (void)f; return(unpack_status); }
int VP_STUB(copy_ctrlheader)(char *p, int *n, struct sbn_frame *f){ (void)f; p[0] = '\0'; *n = 0; return(1); }
int VP_STUB(split_wmo_header)(struct sbn_frame *f, char *id, char *st, char *tm, char *aw, char *na){
  (void)f;
  if(hdr_status != 0) return(1);
  id[0] = st[0] = tm[0] = aw[0] = na[0] = '\0';	/* names are decided in B05 */
  return(0);
}
int VP_STUB(np_regex_match)(char *n){ (void)n; return(rejected); }
int VP_STUB(savez_regex_match)(char *n){ (void)n; return(savez); }
int VP_STUB(oscompat_clock_gettime)(struct timespec *t){ t->tv_sec = 1000; t->tv_nsec = 0; return(0); }

#ifndef VP_NATIVE
/* growth of the memory files is decided in B04; at these sizes there is none */
void *realloc(void *p, size_t n){
  (void)p; (void)n;
  VP_ASSERT(0, "a memory file does not grow before it is full");
  VP_ASSUME(0);
  return(NULL);
}
#endif
static struct pctldb_st pctldb;
static char frd[MAXB];
static struct memfile_st mf[NCH];
static char buf[NCH][32];
static struct { struct pctl_element_st e; char path[64]; } pce[NCH];
static struct pctl_element_st *pcep[NCH];
static struct pctl_st pctl;

/* --- the reference --- */
static struct ref { int active, num, recv, len; unsigned int seq, orig; int cat; char data[MAXC]; } ref[NCH];
static struct exp { int due, complete, ch, num, recv, len; unsigned int seq, orig; int cat; char data[MAXC]; } ex[2];
static int nex, nsent, sent_ok = 1;

static void expect(int ch, int complete){
  struct exp *e = &ex[nex++];
  int k;
  e->complete = complete; e->ch = ch; e->num = ref[ch].num; e->recv = ref[ch].recv; e->len = ref[ch].len;
  e->seq = ref[ch].seq; e->orig = ref[ch].orig; e->cat = ref[ch].cat;
  for(k = 0; k < MAXC; ++k) e->data[k] = ref[ch].data[k];
  ref[ch].active = 0;
}

int VP_STUB(pctldb_send_pce)(struct pctldb_st *db, struct pctl_element_st *p, int *dberror){
  struct exp *e;
  int k;
  (void)db;
  VP_ASSERT(nsent < nex, "nothing is delivered except a finished or cut off product");
  if(nsent >= nex) return(0);
  e = &ex[nsent++];
  VP_ASSERT(!p->f_complete || e->complete, "a product with missing fragments is never delivered as complete");
  VP_ASSERT(p->f_complete || !e->complete, "a product with all its fragments is delivered as complete");
  VP_ASSERT(p->seq_number == e->seq && p->np_channel_index == e->ch, "the product delivered is the one received on that channel");
  VP_ASSERT(p->orig_seq_number == e->orig && p->psh_product_category == e->cat, "the product keeps the fields of its first frame");
  VP_ASSERT(p->num_fragments == e->num && p->recv_fragments == e->recv, "fragment counts");
  VP_ASSERT((int)get_memfile_data_size(p->mf) == e->len, "the content has the size of the fragments received");
  k = vp_nd_range(0, MAXC - 1);
  VP_ASSERT(k >= e->len || p->mf->p[k] == e->data[k], "the content is that of the fragments in order");
  *dberror = 0;
  return(vp_nd_range(-1, 2));
}

void assembly(void){
  static struct sbn_frame f;
  int step, i, st;

  for(i = 0; i < NCH; ++i){
    mf[i].p = buf[i];
    mf[i].allocsize = mf[i].maxallocsize = sizeof(buf[i]);
    pce[i].e.mf = &mf[i];
    pce[i].e.fpath_size = sizeof(pce[i].path);
    pcep[i] = &pce[i].e;
  }
  pctl.pctldb = &pctldb;
  pctl.activepce = pcep;
  pctl.num_activechannels = NCH;
  g.pctl = &pctl;
  g.memfile_blocksize = 0;
  g.memfile_minsize = sizeof(buf[0]);
  g.spooldir = "/s";

  /*
   * Any state of the channels: idle, or with an open product of which any
   * number of fragments has been received.
   */
  for(i = 0; i < NCH; ++i){
    struct pctl_element_st *p;
    int k;
    ref[i].active = vp_nd_bool();
    ref[i].seq = vp_nd_u32(); ref[i].orig = vp_nd_u32(); ref[i].cat = vp_nd_u8();
    ref[i].num = vp_nd_range(1, 65535); ref[i].recv = vp_nd_range(0, 65536); ref[i].len = vp_nd_range(0, PRE);
    for(k = 0; k < PRE; ++k) ref[i].data[k] = (char)vp_nd_u8();
    if(ref[i].active){
      p = open_pctl_activepce(&pctl, i);
      VP_ASSERT(p == pcep[i], "an idle channel can be opened");
      p->f_complete = 0;
      p->seq_number = ref[i].seq; p->orig_seq_number = ref[i].orig; p->psh_product_category = ref[i].cat;
      p->num_fragments = ref[i].num; p->recv_fragments = ref[i].recv;
      p->np_channel_index = i;
      for(k = 0; k < ref[i].len; ++k) (void)write_memfile(p->mf, &ref[i].data[k], 1);
    }
  }

  for(step = 0; step < K; ++step){
    unsigned int seq = vp_nd_u32();
    int ch = vp_nd_range(0, NCH - 1);
    int T = vp_nd_u8() & 0x7f;
    int block = vp_nd_u16();
    int num = vp_nd_u16();
    int rtx = vp_nd_bool();
    unsigned int orig = vp_nd_u32();
    int len = vp_nd_range(0, MAXB), cat = vp_nd_u8();
    int ok, miss = 0, k;
    struct vp_stats old = vp_st;

    unpack_status = vp_nd_range(0, 3);
    hdr_status = vp_nd_bool();
    rejected = vp_nd_range(-1, 1);
    g.f_loadave_max_rtx = vp_nd_bool();
    f.rawdata_size = 100;
    f.np_channel_index = ch;
    f.fh.sbn_command = vp_nd_bool() ? SBN_COMMAND_DATA_TRANSFER : SBN_COMMAND_SYNC_TIMING;
    f.fh.sbn_seq_number = step;
    f.pdh.transfer_type = T;
    f.pdh.block_number = block;
    f.pdh.product_seq_number = seq;
    if(T & PDH_TRANSFERTYPE_START){
      f.psh.num_fragments = num;
      f.psh.transfer_status_flag = rtx ? PSH_STATUSFLAG_RETRANSMIT : 0;
      f.psh.orig_seq_number = orig;
      f.psh.product_category = cat;
    }
    f.ctrlhdr = NULL; f.ctrlhdr_size = 0; f.ccb = NULL; f.f_frdata_compressed = 0;
    f.frdata = frd;
    f.frdata_size = len;
    frd[0] = (char)vp_nd_u8();
    frd[1] = (char)vp_nd_u8();

    nex = nsent = 0;
    ok = (unpack_status == 0) && f.fh.sbn_command == SBN_COMMAND_DATA_TRANSFER;
    if(ok && (T & (PDH_TRANSFERTYPE_ERROR | PDH_TRANSFERTYPE_ABORT))){
      ref[ch].active = 0;
      ok = 0;
      VP_REACH("abort");
    }
    if(ok && (T & PDH_TRANSFERTYPE_START)){
      if(block != 0) ok = 0;
      else{
	if(ref[ch].active){ expect(ch, 0); ++miss; VP_REACH("cut-off"); }
	if(hdr_status != 0){ ok = 0; ++miss; }
	else if(rejected == 1 || (rtx && orig != 0 && g.f_loadave_max_rtx == 1)) ok = 0;
	else{
	  ref[ch].active = 1; ref[ch].seq = seq; ref[ch].num = (num == 0) ? 1 : num; ref[ch].recv = 0; ref[ch].len = 0;
	  ref[ch].orig = rtx ? orig : 0; ref[ch].cat = cat;
	}
      }
    }
    if(ok && (T & PDH_TRANSFERTYPE_PROGRESS) && ref[ch].active && ref[ch].seq == seq){
      if(block == ref[ch].recv){
	++ref[ch].recv;
	for(k = 0; k < len; ++k) ref[ch].data[ref[ch].len++] = frd[k];
      }else{ expect(ch, 0); ++miss; ok = 0; VP_REACH("gap"); }
    }
    if(ok && (T & PDH_TRANSFERTYPE_END) && ref[ch].active && ref[ch].seq == seq){
      if(ref[ch].recv >= ref[ch].num){ if(ref[ch].recv >= 2) VP_REACH("complete"); if(seq == 0) VP_REACH("seq-zero"); expect(ch, 1); }
      else{ expect(ch, 0); ++miss; VP_REACH("end-incomplete"); }
    }

    st = 0;
    for(i = 0; i < NCH; ++i)		/* a case split, for the solver */
      if(ch == i){
	f.np_channel_index = i;
	st = sbnframeproc(&f);
      }

    VP_ASSERT(nsent == nex, "a finished or cut off product is delivered at once, exactly once");
    VP_ASSERT(unpack_status == 0 || st == unpack_status, "the verdict on a bad frame is returned");
    VP_ASSERT(vp_st.missed - old.missed == miss, "each missed product is counted once");
    VP_ASSERT(vp_st.completed - old.completed == (nex > 0 && ex[nex - 1].complete), "each complete product is counted once");
    for(i = 0; i < NCH; ++i){
      struct pctl_element_st *p = get_pctl_activepce(g.pctl, i, ref[i].seq);
      VP_ASSERT((p != NULL) == ref[i].active, "a product is open exactly between its first frame and its end");
      if(p != NULL){
	VP_ASSERT(p == pcep[i] && p->seq_number == ref[i].seq && p->f_complete == 0, "the open product of a channel");
	VP_ASSERT(p->num_fragments == ref[i].num && p->recv_fragments == ref[i].recv, "the fragments of the open product are counted");
	VP_ASSERT(p->np_channel_index == i && p->orig_seq_number == ref[i].orig && p->psh_product_category == ref[i].cat, "the fields of the open product");
	VP_ASSERT((int)get_memfile_data_size(p->mf) == ref[i].len, "the size of the open product");
	for(k = 0; k < ref[i].len; ++k)
	  VP_ASSERT(p->mf->p[k] == ref[i].data[k], "the content of the open product");
      }
    }
  }
}
