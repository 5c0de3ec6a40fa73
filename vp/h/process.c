/*
 * Processing of a received product: src/nbsp.c with the memory file, the spool
 * selection and the queue packets.
 */
#include <pthread.h>
#include <stdio.h>
#include <unistd.h>
#include "vp.h"
#include "globals.h"
#include "nbsp.h"
#include "rtxdb.h"
#include "packfpc.h"
#include "nbspre.h"
#include "vp_stats.h"

struct nbsp_globals g;

#ifndef NHIST
#define NHIST 3
#endif
#define CB CCB_SIZE
#ifdef SMALL
#define MAXC 1
#else
#define MAXC (CB + 3)
#endif

#include "vp_stats.h"
/* --------------------------------------------- the retransmission data base */
static int db_ret, n_ok, n_fail, n_trunc, n_get, seq_after;
static unsigned int put_key, get_key;
int VP_STUB(e_nbsp_rtxdb_get_fstatus)(unsigned int s){ ++n_get; get_key = s; VP_ASSERT(n_ok + n_fail == 0, "the original is looked up before anything is recorded"); return(db_ret); }
int VP_STUB(e_nbsp_rtxdb_put_ok)(unsigned int s);
int VP_STUB(e_nbsp_rtxdb_put_fail)(unsigned int s){ ++n_fail; put_key = s; return(vp_nd_range(-1, 1)); }
int VP_STUB(e_nbsp_rtxdb_truncate)(void){ ++n_trunc; VP_ASSERT(n_get + n_ok + n_fail == 0, "the period changes before the product is processed"); return(vp_nd_range(-1, 1)); }

/* ------------------------------------------------------ the environment */
static struct { struct pctl_element_st e; char path[80]; } pc;
static struct memfile_st mf;
static char store[MAXC];
static struct pctl_st pctl;
static int quit, rcv_status;
static int n_open, n_fs, n_mb, n_cb, fs_len, mb_len, cb_len, nfilter, nserver, nspooldb, ndel;
static int ok_open, ok_write, ok_mb, ok_cb;
static char fs_c[MAXC], mb_c[MAXC], cb_c[MAXC];
static int re_filter, re_server, re_rtx, snd_filter, snd_server, order_bad, stored;

int VP_STUB(get_quit_flag)(void){ return(quit++); }
void VP_STUB(set_quit_flag)(void){ quit = 1; }
int VP_STUB(pthread_attr_init)(pthread_attr_t *a){ (void)a; return(0); }
int VP_STUB(pthread_create)(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *arg){
  (void)t; (void)a;
  (void)f(arg);
  return(0);
}
#ifndef VP_NATIVE
int __sigsetjmp(struct __jmp_buf_tag *b, int m){ (void)b; (void)m; return(0); }
void __pthread_register_cancel(__pthread_unwind_buf_t *b){ (void)b; }
void __pthread_unregister_cancel(__pthread_unwind_buf_t *b){ (void)b; }
int pthread_mutex_lock(pthread_mutex_t *m){ (void)m; return(0); }
int pthread_mutex_trylock(pthread_mutex_t *m){ (void)m; return(0); }
int pthread_mutex_unlock(pthread_mutex_t *m){ (void)m; return(0); }
#endif
void VP_STUB(e_report_qstate)(void){}
struct pctl_element_st *VP_STUB(eopen_pctl_outputpce)(struct pctl_st *p, int ms, int *status){
  (void)p; (void)ms;
  *status = rcv_status;
  return(rcv_status == 0 ? &pc.e : NULL);
}
void VP_STUB(close_pctl_outputpce)(struct pctl_st *p){ (void)p; }
FILE *VP_STUB(fopen)(const char *f, const char *m){ (void)f; (void)m; return(NULL); }
int VP_STUB(rtxdb_regex_match)(char *n){ VP_ASSERT(n == pc.e.fname, "patterns are matched against the product name"); return(re_rtx); }
int VP_STUB(filterq_regex_match)(char *n){ VP_ASSERT(n == pc.e.fname, "patterns are matched against the product name"); return(re_filter); }
int VP_STUB(serverq_regex_match)(char *n){ VP_ASSERT(n == pc.e.fname, "patterns are matched against the product name"); return(re_server); }
int VP_STUB(e_open_product_file)(struct pctl_element_st *p){ (void)p; ++n_open; return(ok_open ? 77 : -1); }
ssize_t VP_STUB(write)(int fd, const void *b, size_t n){
  int i;
  VP_ASSERT(fd == 77, "the product is written to its file");
  VP_ASSERT(n <= MAXC, "no more than the product is written");
  if(ok_write == 0) return(-1);
  if(ok_write == 1 && n > 0) return((ssize_t)n - 1);
  for(i = 0; i < MAXC; ++i) if((size_t)i < n && fs_len + i < MAXC) fs_c[fs_len + i] = ((const char*)b)[i];
  fs_len += (int)n;
  ++n_fs;
  return((ssize_t)n);
}
int VP_STUB(close)(int fd){ VP_ASSERT(fd == 77, "the product file is closed"); --n_open; return(0); }
int VP_STUB(nbsp_mspoolbdb_insert)(char *f, void *p, size_t n){
  int i;
  VP_ASSERT(f == pc.e.fpath, "the key is the path");
  VP_ASSERT(n <= MAXC, "no more than the product is written");
  for(i = 0; i < MAXC; ++i) if((size_t)i < n) mb_c[i] = ((char*)p)[i];
  mb_len = (int)n; ++n_mb;
  return(ok_mb ? 0 : -1);
}
int VP_STUB(nbsp_cspoolbdb_insert)(char *f, void *p, size_t n){
  int i;
  VP_ASSERT(f == pc.e.fpath, "the key is the path");
  VP_ASSERT(n <= MAXC, "no more than the product is written");
  for(i = 0; i < MAXC; ++i) if((size_t)i < n) cb_c[i] = ((char*)p)[i];
  cb_len = (int)n; ++n_cb;
  return(ok_cb ? 0 : -1);
}
struct spooldb_st *VP_STUB(spooldb_init)(unsigned int n, int k, int (*d)(char*)){ (void)n; (void)k; (void)d; static char x; return((void*)&x); }
int VP_STUB(file_exists)(char *f){ (void)f; return(1); }
int VP_STUB(spooldb_insert)(struct spooldb_st *s, char *f){ (void)s; ++nspooldb; VP_ASSERT(f == pc.e.fpath, "the path is recorded"); return(vp_nd_bool()); }
int VP_STUB(spooldb_write)(struct spooldb_st *s, char *f, mode_t m){ (void)s; (void)f; (void)m; return(0); }
void VP_STUB(spooldb_destroy)(struct spooldb_st *s){ (void)s; }

static unsigned int pk_seq; static int pk_type, pk_ok;
static void packet(void *pk, size_t n){
  /* what is exported names this product */
  unsigned char *p = pk; char *fpp = pc.e.fpath;
  pk_ok = (((unsigned)p[12] << 24 | (unsigned)p[13] << 16 | (unsigned)p[14] << 8 | p[15]) == pc.e.seq_number) && p[16] == (unsigned char)pc.e.psh_product_type
    && p[17] == (unsigned char)pc.e.psh_product_category && p[18] == (unsigned char)pc.e.psh_product_code && p[19] == (unsigned char)pc.e.np_channel_index;
  VP_ASSERT(pk_ok, "what is exported are the fields of the product");
  VP_ASSERT(p[20] == (unsigned char)pc.e.fname[0] && p[20 + FNAME_SIZE + 1] == (unsigned char)pc.e.fpath[0] && p[22 + FNAME_SIZE + 1] == (unsigned char)fpp[2],
	    "what is exported is the name and path of the product");
  (void)n;
}
int VP_STUB(e_nbspq_snd_filter)(void *p, size_t n){ ++nfilter; packet(p, n); return(snd_filter); }
int VP_STUB(e_nbspq_snd_server)(void *p, size_t n){ ++nserver; packet(p, n); return(snd_server); }

int VP_STUB(e_nbsp_rtxdb_put_ok)(unsigned int s){
  ++n_ok; put_key = s;
  seq_after = n_fs + n_mb + n_cb;
  return(vp_nd_range(-1, 1));
}

static void product(void){
  int k, n;
  char *fpp = pc.e.fpath;
  pctl.pce = &pc.e;
  g.pctl = &pctl;
  g.spooldir = "/s";
  g.missinglogfile = g.rtxlogfile = "/l";
  mf.p = store; mf.allocsize = mf.maxallocsize = MAXC;
  n = vp_nd_range(0, MAXC);
  mf.size = n; mf.nread = 0;
  for(k = 0; k < MAXC; ++k) store[k] = (char)vp_nd_u8();
  pc.e.mf = &mf;
  pc.e.f_active = 0;
  pc.e.seq_number = vp_nd_u32();
  pc.e.orig_seq_number = vp_nd_u32();
  pc.e.f_complete = vp_nd_bool();
  pc.e.num_fragments = vp_nd_range(1, 65535);
  pc.e.recv_fragments = vp_nd_range(0, 65535);
  pc.e.psh_product_type = vp_nd_u8(); pc.e.psh_product_category = vp_nd_u8(); pc.e.psh_product_code = vp_nd_u8(); pc.e.np_channel_index = vp_nd_u8();
  pc.e.save_format = vp_nd_bool() ? SAVEFORMAT_NO_CCB : SAVEFORMAT_WITH_CCB;
#ifdef SMALL
  pc.e.f_has_ccb = 0;
#else
  pc.e.f_has_ccb = vp_nd_bool();
#endif
  pc.e.saveunz_flag = 0;
  pc.e.fpath_size = 2 + WMO_STATION_SIZE + FBASENAME_SIZE + 2 + 1;
  pc.e.fname[0] = 'n';
  fpp[0] = '/'; fpp[1] = 's'; fpp[2] = (char)vp_nd_u8();
  g.spooltype = vp_nd_range(SPOOLTYPE_FS, SPOOLTYPE_MCBDB);
  g.spooldb_slots = vp_nd_bool() ? 20000 : 0;
  ok_open = vp_nd_bool(); ok_write = vp_nd_range(0, 2); ok_mb = vp_nd_bool(); ok_cb = vp_nd_bool();
  re_filter = vp_nd_range(-1, 1); re_server = vp_nd_range(-1, 1); re_rtx = vp_nd_range(-1, 1);
  snd_filter = vp_nd_range(-1, 1); snd_server = vp_nd_range(-1, 1);
  rcv_status = 0;
  g.rtxdb_default_process = vp_nd_bool();
}

/* is the product stored completely, and what has to be in the spools */
static int off, len, want_ok;
static int fs_ok(void){ return(ok_write == 2 || (ok_write == 1 && len == 0)); }
static int spooltype_m(void){ return(g.spooltype == SPOOLTYPE_MBDB || g.spooltype == SPOOLTYPE_FMBDB); }
static void storage(void){
  off = (pc.e.save_format == SAVEFORMAT_NO_CCB && pc.e.f_has_ccb) ? CB : 0;
  len = (int)mf.size - off;
  want_ok = !(off != 0 && len <= 0);
  if(g.spooltype == SPOOLTYPE_FS) want_ok = want_ok && ok_open && fs_ok();
  else if(g.spooltype == SPOOLTYPE_MBDB || g.spooltype == SPOOLTYPE_FMBDB) want_ok = want_ok && ok_mb;
  else want_ok = want_ok && ok_cb && ok_open && fs_ok();
}

/* B06: retransmissions */
void rtx_process(void){
  int discard, want_store, tracked, flag;

  product();
  storage();
  db_ret = vp_nd_range(-2, 1);
  flag = vp_nd_bool();
  if(flag) set_rtxdb_truncate_flag();
  tracked = (re_rtx == 0);
  discard = 0;
  if(pc.e.f_complete && pc.e.orig_seq_number != 0 && tracked){
    if(db_ret == 0) discard = 1;
    if(db_ret == -2) discard = (g.rtxdb_default_process == 0);
    VP_REACH("looked-up");
  }
  want_store = pc.e.f_complete && !discard;
  (void)spawn_nbsproc();
  VP_ASSERT(n_trunc == flag, "a period ends once when its time has come");
  VP_ASSERT(n_get == 0 || (n_get == 1 && get_key == pc.e.orig_seq_number), "the original is looked up");
  if(!want_store)
    VP_ASSERT(n_fs == 0 && n_mb == 0 && n_cb == 0 && nspooldb == 0, "a duplicate, or an incomplete product, is not stored");
  else if(want_ok){
    VP_ASSERT(n_fs + n_mb + n_cb > 0, "a product that is not a duplicate is stored");
    VP_ASSERT(g.spooldb_slots == 0 || spooltype_m() || nspooldb == 1, "a stored product is recorded in the spool list");
    if(pc.e.orig_seq_number != 0 && tracked && db_ret == 1) VP_REACH("recovered");
  }
  if(!(want_store && want_ok)){
    VP_ASSERT(nspooldb == 0, "a product that is not stored is not in the spool list");
    VP_ASSERT(nfilter == 0 && nserver == 0, "nothing is exported of a product that was not stored");
  }
  /* what is recorded */
  VP_ASSERT(n_ok + n_fail == 0 || (n_ok + n_fail == 1 && put_key == pc.e.seq_number), "the condition recorded is that of the product, once");
  VP_ASSERT(tracked || n_ok + n_fail == 0, "nothing is recorded of products that are not tracked");
  if(tracked){
    VP_ASSERT(n_fail == !pc.e.f_complete, "an incomplete product is recorded as failed");
    if(db_ret != -2 || pc.e.orig_seq_number == 0)
      VP_ASSERT(n_ok == (pc.e.f_complete && (discard || want_ok)), "good is recorded only of a product stored, or discarded as a duplicate");
    VP_ASSERT(n_ok == 0 || discard || seq_after > 0, "good is recorded only after the product is stored");
  }
}

/* P04: exports */
void export(void){
  int st;
  product();
  db_ret = -2;
  re_rtx = 0;
  storage();
  rcv_status = vp_nd_range(-1, 1);
  (void)spawn_nbsproc();
  if(rcv_status == 0 && pc.e.f_complete && !(pc.e.orig_seq_number != 0 && g.rtxdb_default_process == 0) && want_ok){
    VP_ASSERT(nfilter == (re_filter == 0), "a stored product is handed to the filters exactly when its name is accepted");
    VP_ASSERT(nserver == (re_server == 0), "a stored product is handed to the servers exactly when its name is accepted");
    VP_ASSERT(vp_st.products == 1, "the product is counted");
    if(nfilter && nserver && snd_filter == -1) VP_REACH("export-both");
  }else{
    VP_ASSERT(nfilter == 0 && nserver == 0, "nothing is exported of a product that was not stored");
    VP_REACH("export-none");
  }
}

/* P05: what is stored */
void spool_kinds(void){
  int k, fs, mb, cb;
  product();
  db_ret = -2;
  re_rtx = 1;
  pc.e.f_complete = 1;
  storage();
  (void)spawn_nbsproc();
  fs = g.spooltype == SPOOLTYPE_FS || g.spooltype == SPOOLTYPE_CBDB || g.spooltype == SPOOLTYPE_MCBDB;
  mb = g.spooltype == SPOOLTYPE_MBDB || g.spooltype == SPOOLTYPE_FMBDB;
  cb = g.spooltype == SPOOLTYPE_CBDB || g.spooltype == SPOOLTYPE_MCBDB;
  VP_ASSERT(n_open == 0 || !ok_open, "each product file opened is closed");
  k = vp_nd_range(0, MAXC - 1);
  if(want_ok){
    VP_ASSERT((n_fs == 1) == fs && (n_mb == 1) == mb && (n_cb == 1) == cb, "the product is stored in the spool configured and in no other");
    VP_ASSERT(!fs || fs_len == len, "the file has the size of the product");
    VP_ASSERT(!mb || mb_len == len, "the data base entry has the size of the product");
    VP_ASSERT(!cb || cb_len == len, "the cache entry has the size of the product");
    VP_ASSERT(k >= len || !fs || fs_c[k] == store[off + k], "the file is the product");
    VP_ASSERT(k >= len || !mb || mb_c[k] == store[off + k], "the data base entry is the product");
    VP_ASSERT(k >= len || !cb || cb_c[k] == store[off + k], "the cache entry is the product");
    if(off != 0 && fs && len == 3) VP_REACH("spool-noccb");
    if(off == 0 && mb && len == MAXC) VP_REACH("spool-whole");
  }else{
    VP_ASSERT(nfilter == 0 && nserver == 0, "a product not stored completely is not exported");
    VP_REACH("spool-error");
  }
}

#ifndef VP_NATIVE
/* growth of the memory files is decided in B04; at these sizes there is none */
void *realloc(void *p, size_t n){
  (void)p; (void)n;
  VP_ASSERT(0, "a memory file does not grow before it is full");
  VP_ASSUME(0);
  return(NULL);
}
#endif
/* B04: compressed fragments are stored expanded, in order */
static int unz_fail;
int VP_STUB(unz)(char *out, int *outlen, char *in, int inlen){
  int i;
  VP_ASSERT(*outlen >= 4, "there is room for the expanded fragment");
  if(unz_fail && vp_nd_bool()){ unz_fail = 2; return(-3); }
  /* stands for any expansion: the bytes changed, and one more */
  for(i = 0; i < 3; ++i) if(i < inlen) out[i] = (char)(in[i] ^ 0x55);
  out[inlen] = 'z';
  *outlen = inlen + 1;
  return(0);
}
void expand(void){
  static char fr[64], outb[16];
  static struct memfile_st of;
  char want[16];
  int nf, f, k, n = 0, w = 0, st;
  product();
  db_ret = -2;
  mf.p = fr; mf.allocsize = mf.maxallocsize = sizeof(fr); mf.size = 0; mf.nread = 0;
  of.p = outb; of.allocsize = of.maxallocsize = sizeof(outb);
  of.size = vp_nd_range(0, 16); of.nread = vp_nd_range(0, 16);	/* left by the previous product */
  pctl.outputmf = &of;
  g.memfile_minsize = sizeof(outb); g.memfile_blocksize = 0;
  nf = vp_nd_range(1, 2);
  for(f = 0; f < 2; ++f){
    char d[3];
    int len = f + 1, comp = vp_nd_bool();
    for(k = 0; k < 3; ++k) d[k] = (char)vp_nd_u8();
    st = write_memframe(&mf, d, len, comp);
    VP_ASSERT(st >= 0, "there is room for the fragments");
    if(f < nf){
      for(k = 0; k < len; ++k) want[w++] = comp ? (char)(d[k] ^ 0x55) : d[k];
      if(comp) want[w++] = 'z';
      n += comp;
    }
  }
  unz_fail = vp_nd_bool();
  re_rtx = 1;
  pc.e.f_complete = 1; pc.e.orig_seq_number = 0; pc.e.recv_fragments = nf;
  pc.e.f_has_ccb = 0; pc.e.saveunz_flag = 1;
  g.spooltype = vp_nd_bool() ? SPOOLTYPE_FS : SPOOLTYPE_MBDB;
  ok_open = ok_mb = 1; ok_write = 2;
  if(nf == 1){ pc.e.num_fragments = 1; (void)spawn_nbsproc(); }
  else{ pc.e.num_fragments = 2; (void)spawn_nbsproc(); }
  if(unz_fail == 2){
    VP_ASSERT(n_fs + n_mb == 0 && nfilter == 0 && nserver == 0, "a product that cannot be expanded is neither stored nor exported");
    VP_REACH("expand-fails");
  }else{
    int l = (g.spooltype == SPOOLTYPE_FS) ? fs_len : mb_len;
    char *c = (g.spooltype == SPOOLTYPE_FS) ? fs_c : mb_c;
    VP_ASSERT(n_fs + n_mb == 1 && l == w, "the stored size is that of the expanded fragments");
    k = vp_nd_range(0, 5);
    VP_ASSERT(k >= w || c[k] == want[k], "the stored content is the expanded fragments in order");
    if(nf == 2 && n == 1) VP_REACH("expand-mixed");
  }
}
