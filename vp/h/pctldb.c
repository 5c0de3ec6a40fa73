/* the processing queue: src/pctl.c, src/pctldb.c, src/pctlmfdb.c over a model of the db library */
#include <pthread.h>
#include <stddef.h>
#include <sys/time.h>
#include "vp.h"
#include "globals.h"
#include "pctl.h"

struct nbsp_globals g;
#ifndef K
#define K 2
#endif
#define NQ K		/* products that are queued */
#define MFB 4		/* their content */
#define PATHB 3		/* symbolic bytes at the start of the path; and its last one */

/* what const_fpath_maxsize() is computed from */
static char spooldir[] = "/s";
struct rec { struct pctl_element_st e; char path[120]; };

/* ------------------------------------------------------------ the locks */
static int held, lockfail;
static struct pctldb_st *pdb;
int VP_STUB(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a){ (void)m; (void)a; return(0); }
int VP_STUB(pthread_mutex_destroy)(pthread_mutex_t *m){ (void)m; return(0); }
int VP_STUB(pthread_cond_init)(pthread_cond_t *m, const pthread_condattr_t *a){ (void)m; (void)a; return(0); }
int VP_STUB(pthread_cond_destroy)(pthread_cond_t *m){ (void)m; return(0); }
static int nsignal;
int VP_STUB(pthread_cond_signal)(pthread_cond_t *m){ (void)m; ++nsignal; return(0); }
int VP_STUB(pthread_mutex_lock)(pthread_mutex_t *m){
  (void)m;
  VP_ASSERT(!held, "the queue lock is not taken twice");
  if(lockfail && vp_nd_bool()) return(22);
  held = 1; return(0);
}
int VP_STUB(pthread_mutex_unlock)(pthread_mutex_t *m){ (void)m; VP_ASSERT(held, "the queue lock is released by its holder"); held = 0; return(0); }
static int nwait, waitmode, waitok, tz, wstat;
static struct timespec deadline;
static int other(void);
int VP_STUB(pthread_cond_timedwait)(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts){
  (void)c; (void)m;
  VP_ASSERT(held, "waits are made with the lock");
  deadline = *ts; ++nwait; tz = 1;
  if(waitmode && nwait == 1){ waitok = other(); return(0); }
  return(wstat);
}
int VP_STUB(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *m){
  (void)c; (void)m;
  VP_ASSERT(held, "waits are made with the lock");
  ++nwait; tz = 0;
  return(22);
}
static struct timeval now;
int VP_STUB(gettimeofday)(struct timeval *tv, void *tz){ (void)tz; *tv = now; return(0); }
static struct timespec clk;
int VP_STUB(oscompat_clock_gettime)(struct timespec *ts){ *ts = clk; return(0); }
char *VP_STUB(db_strerror)(int e){ (void)e; return("db"); }
int VP_STUB(const_fpath_maxsize)(void){ return(100); }

/* --------------------------------------------------------- the libraries */
static DB dbs[2];
static DBC cur;
static int ndb, nclosed[2], opened, openfail, faults, qputs, mputs, anyfault;
static u_int32_t rl;
static int fault(void){
  if(faults && vp_nd_bool()){ anyfault = 1; return(1); }
  return(0);
}
static int err(void){ return(vp_nd_bool() ? 22 : -30973); }
/* the queue */
static struct rec q[NQ]; static int qh, qt;
/* the contents */
static struct { int used; struct timespec k; char b[MFB]; u_int32_t n; } mt[NQ];
static int (*cmp)(DB*, const DBT*, const DBT*);
#if DB_VERSION_MAJOR >= 6
static int cmpk(const DBT *a, const DBT *b){ int (*f)(DB*, const DBT*, const DBT*, size_t*) = (void*)cmp; return(f(&dbs[1], a, b, NULL)); }
#else
static int cmpk(const DBT *a, const DBT *b){ return(cmp(&dbs[1], a, b)); }
#endif
static int plain;	/* P02: sizes only */
static u_int32_t plain_n, plain_get, qn0, mf0, mf1;

static int m_relen(DB *d, u_int32_t n){ (void)d; if(openfail && vp_nd_bool()) return(err()); rl = n; return(0); }
static int m_getrelen(DB *d, u_int32_t *n){ (void)d; if(fault()) return(err()); *n = rl; return(0); }
static int m_ext(DB *d, u_int32_t n){ (void)d; (void)n; return(openfail && vp_nd_bool() ? err() : 0); }
static int m_cmp(DB *d, int (*f)(DB*, const DBT*, const DBT*)){ (void)d; cmp = f; return(openfail && vp_nd_bool() ? err() : 0); }
static int m_open(DB *d, DB_TXN *t, const char *f, const char *b, DBTYPE ty, u_int32_t fl, int mode){
  VP_ASSERT((ty == DB_QUEUE) == (d == &dbs[0]), "the queue is a queue");
  if(openfail && vp_nd_bool()) return(err());
  ++opened;
  return(0);
}
static int m_close(DB *d, u_int32_t fl){ ++nclosed[d == &dbs[1]]; return(0); }
static int m_stat(DB *d, DB_TXN *t, void *sp, u_int32_t fl){
  DB_QUEUE_STAT *s;
  if(openfail && vp_nd_bool()) return(err());
  s = malloc(sizeof(*s));
  VP_ASSUME(s != NULL);
  s->qs_ndata = qn0;
  *(DB_QUEUE_STAT**)sp = s;
  return(0);
}
static int curn;
static int m_cget(DBC *c, DBT *k, DBT *v, u_int32_t fl){
  VP_ASSERT(fl == DB_NEXT, "every content is visited");
  if(openfail && vp_nd_bool()) return(err());
  ++curn;
  if(curn == 1 && plain){ v->size = mf0; return(0); }
  if(curn == 2 && plain){ v->size = mf1; return(0); }
  return(DB_NOTFOUND);
}
static int m_cclose(DBC *c){ (void)c; return(0); }
static int m_cursor(DB *d, DB_TXN *t, DBC **c, u_int32_t fl){
  if(openfail && vp_nd_bool()) return(err());
  *c = &cur;
  return(0);
}
static int qput(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t fl){
  int i; u_int32_t off = offsetof(struct pctl_element_st, fpath);
  VP_ASSERT(held, "the queue is changed with the lock");
  VP_ASSERT(fl == DB_APPEND, "products are added at the end");
  ++qputs;
  if(v->size > rl) return(22);
  if(fault()) return(err());
  if(plain) return(0);
  VP_ASSERT(v->size > off, "a queue record has room for all the fields");
  VP_ASSERT(qt < NQ, "only the products sent are added");
  q[qt] = *(struct rec*)v->data;
  for(i = 0; i < 101; ++i) if(off + (u_int32_t)i >= v->size) ((char*)&q[qt])[off + i] = 0;
  ++qt;
  return(0);
}
static int qget(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t fl){
  VP_ASSERT(held, "the queue is changed with the lock");
  VP_ASSERT(fl == DB_CONSUME, "products are removed from the head");
  VP_ASSERT((v->flags & DB_DBT_USERMEM) && v->ulen >= rl, "a record is read into room that is there");
  if(fault()) return(err());
  if(plain) return(0);
  if(qh == qt) return(DB_NOTFOUND);
  *(struct rec*)v->data = q[qh++];
  v->size = rl;
  return(0);
}
static int mput(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t fl){
  int i, j, done = 0;
  VP_ASSERT(held, "the contents are changed with the lock");
  ++mputs;
  VP_ASSERT(k->size == sizeof(struct timespec), "the key is the time");
  if(fault()) return(err());
  if(plain){ plain_n = v->size; return(0); }
  VP_ASSERT(v->size <= MFB, "the content is no larger than what was given");
  for(i = 0; i < NQ; ++i) if(!done){
    DBT kk; kk.data = &mt[i].k; kk.size = sizeof(struct timespec);
    if(!mt[i].used || cmpk(k, &kk) == 0){
      mt[i].used = 1; mt[i].k = *(struct timespec*)k->data; mt[i].n = v->size; done = 1;
      for(j = 0; j < MFB; ++j) if((u_int32_t)j < v->size) mt[i].b[j] = ((char*)v->data)[j];
    }
  }
  return(0);
}
static int small;
static int mget(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t fl){
  int i, j;
  VP_ASSERT(held, "the contents are changed with the lock");
  VP_ASSERT(v->flags & DB_DBT_USERMEM, "the content is read into room that is there");
  if(fault()) return(err());
  if(plain){
    v->size = plain_get;
    if(v->ulen < v->size){ ++small; return(DB_BUFFER_SMALL); }
    return(0);
  }
  for(i = 0; i < NQ; ++i){
    DBT kk; kk.data = &mt[i].k; kk.size = sizeof(struct timespec);
    if(mt[i].used && cmpk(k, &kk) == 0){
      v->size = mt[i].n;
      if(v->ulen < v->size){ ++small; return(DB_BUFFER_SMALL); }
      for(j = 0; j < MFB; ++j) if((u_int32_t)j < v->size) ((char*)v->data)[j] = mt[i].b[j];
      return(0);
    }
  }
  return(DB_NOTFOUND);
}
static int mdel(DB *d, DB_TXN *t, DBT *k, u_int32_t fl){
  int i;
  VP_ASSERT(held, "the contents are changed with the lock");
  if(fault()) return(err());
  if(plain) return(0);
  for(i = 0; i < NQ; ++i){
    DBT kk; kk.data = &mt[i].k; kk.size = sizeof(struct timespec);
    if(mt[i].used && cmpk(k, &kk) == 0){ mt[i].used = 0; return(0); }
  }
  return(DB_NOTFOUND);
}
static void fill(DB *d){
  d->set_re_len = m_relen; d->get_re_len = m_getrelen; d->set_q_extentsize = m_ext;
  d->set_bt_compare = (void*)m_cmp; d->open = m_open; d->close = m_close; d->stat = (void*)m_stat;
  d->cursor = m_cursor; d->del = mdel;
  d->put = d == &dbs[0] ? qput : mput;
  d->get = d == &dbs[0] ? qget : mget;
}
int VP_STUB(db_create)(DB **p, DB_ENV *e, u_int32_t fl){
  VP_ASSERT(ndb < 2, "two data bases are enough");
  if(openfail && vp_nd_bool()) return(err());
  if(ndb == 0) *p = &dbs[0]; else *p = &dbs[1];
  ++ndb;
  return(0);
}
static char bigger[64]; static int nomem, nrealloc;
#ifdef VP_NATIVE
void *VP_STUB(realloc)(void *p, size_t n){ ++nrealloc; if(nomem){ errno = ENOMEM; return(NULL); } return(bigger); }
void VP_STUB(free)(void *p){ (void)p; }
#else
void *realloc(void *p, size_t n){ int i; ++nrealloc; if(nomem){ errno = ENOMEM; return(NULL); } return(bigger); }
#endif

static struct pctldb_param_st par;
static struct memfile_st mf, omf;
static struct rec pc, out;
static char content[MFB], obuf[2];
static void setup(void){
  fill(&dbs[0]); fill(&dbs[1]); cur.c_get = m_cget; cur.c_close = m_cclose;
  g.spooldir = spooldir;
  par.mode = 0600; par.extent_size = vp_nd_range(0, 100);
  par.reclen = (u_int32_t)const_pce_data_size();
  VP_ASSERT(par.reclen <= sizeof(struct rec), "a record holds an element");
  par.memfile_minsize = 2;
}

/* -------------------------------------------------------------- P01 open */
void pctl_open(void){
  struct pctldb_st *p = NULL;
  int de = 0, st;
  setup();
  openfail = 1;
  st = pctldb_open(&p, &par, &de);
  if(st != 0){
    VP_ASSERT(nclosed[0] == (ndb > 0), "a queue that cannot be opened is closed");
    VP_ASSERT(nclosed[1] == (ndb > 1), "a store that cannot be opened is closed");
    VP_ASSERT(st == -1 && de != 0, "a failure to open the queue is reported");
    VP_REACH("open-fails");
  }else{
    VP_ASSERT(opened == 2, "an open queue has its data bases");
    VP_ASSERT(p->n == 0 && p->mf_total_size == 0, "an empty queue is counted as empty");
    VP_REACH("open");
    VP_ASSERT(pctldb_close(p, &de) == 0 && !held, "the queue closes");
    VP_ASSERT(nclosed[0] == 1 && nclosed[1] == 1, "a queue is closed once");
  }
}

/* -------------------------------------------------------------- P01 fifo */
static struct rec ref[NQ]; static char refb[NQ][MFB]; static int refn[NQ], rh, rt, nsent;
static void newproduct(void){
  int i;
  pc.e.seq_number = vp_nd_u32(); pc.e.orig_seq_number = vp_nd_u32();
  pc.e.f_complete = vp_nd_bool(); pc.e.num_fragments = vp_nd_int(); pc.e.recv_fragments = vp_nd_int();
  pc.e.psh_product_type = vp_nd_int(); pc.e.psh_product_category = vp_nd_int(); pc.e.psh_product_code = vp_nd_int(); pc.e.np_channel_index = vp_nd_int();
  pc.e.save_format = vp_nd_int(); pc.e.saveunz_flag = vp_nd_int(); pc.e.rtxdb_flag = vp_nd_int(); pc.e.ctrlhdr_size = vp_nd_int(); pc.e.f_has_ccb = vp_nd_int();
  pc.e.ctrlhdr[0] = (char)vp_nd_u8(); pc.e.wmo_id[0] = (char)vp_nd_u8(); pc.e.wmo_station[1] = (char)vp_nd_u8(); pc.e.wmo_awips[2] = (char)vp_nd_u8();
  pc.e.fname[FNAME_SIZE] = (char)vp_nd_u8(); pc.e.fbasename[3] = (char)vp_nd_u8();
  for(i = 0; i < PATHB; ++i) ((char*)&pc)[offsetof(struct pctl_element_st, fpath) + i] = (char)vp_nd_u8();
  ((char*)&pc)[offsetof(struct pctl_element_st, fpath) + 99] = (char)vp_nd_u8();
  mf.size = (size_t)vp_nd_range(0, MFB); mf.nread = 0; mf.allocsize = mf.maxallocsize = MFB; mf.p = content;
  for(i = 0; i < MFB; ++i) content[i] = (char)vp_nd_u8();
  pc.e.mf = &mf;
  clk.tv_sec = (time_t)vp_nd_urange(0, 0xffffffffffULL);
  clk.tv_nsec = (long)vp_nd_urange(0, 999999999);
}
static int send(void){
  int st, i, de = 0, h0 = held;
  newproduct();
  anyfault = 0; nsignal = 0;
  st = pctldb_send_pce(pdb, &pc.e, &de);
  VP_ASSERT(!held, "the queue lock is released");
  VP_ASSERT((st == 0) == !anyfault, "a product is accepted or its error reported");
  VP_ASSERT(st == 0 || (st == -1 && de != 0), "a product that cannot be queued is reported");
  if(st == 0){
    VP_ASSERT(nsignal > 0, "the processor is told of a new product");
    ref[rt] = pc; refn[rt] = (int)mf.size;
    for(i = 0; i < MFB; ++i) refb[rt][i] = content[i];
    ++rt;
  }
  return(st);
}
static int other(void){
  int r;
  held = 0;
  r = send();
  held = 1;
  return(r);
}
#define SAME(f) VP_ASSERT(out.e.f == ref[rh].e.f, "a product leaves the queue with the fields it had: " #f)
static void check(int st){
  int i;
  struct rec *r = &ref[rh];
  SAME(seq_number); SAME(orig_seq_number); SAME(f_complete); SAME(num_fragments); SAME(recv_fragments); SAME(psh_product_type);
  SAME(psh_product_category); SAME(psh_product_code); SAME(np_channel_index); SAME(save_format); SAME(saveunz_flag); SAME(rtxdb_flag);
  SAME(ctrlhdr_size); SAME(f_has_ccb); SAME(ctrlhdr[0]); SAME(wmo_id[0]); SAME(wmo_station[1]); SAME(wmo_awips[2]); SAME(fname[FNAME_SIZE]);
  SAME(fbasename[3]);
  for(i = 0; i < PATHB; ++i)
    VP_ASSERT(((char*)&out)[offsetof(struct pctl_element_st, fpath) + i] == ((char*)r)[offsetof(struct pctl_element_st, fpath) + i], "a product leaves the queue with its path");
  VP_ASSERT(((char*)&out)[offsetof(struct pctl_element_st, fpath) + 99] == ((char*)r)[offsetof(struct pctl_element_st, fpath) + 99], "a product leaves the queue with its whole path");
  VP_ASSERT(get_memfile_data_size(&omf) == (size_t)refn[rh], "a product leaves the queue with all its content");
  for(i = 0; i < MFB; ++i) VP_ASSERT(i >= refn[rh] || omf.p[i] == refb[rh][i], "a product leaves the queue with its content");
  ++rh;
}
static void receive(void){
  int st, de = 0, n = rt;
  anyfault = 0; small = 0; nwait = 0;
  nomem = faults ? vp_nd_bool() : 0;
  wstat = ETIMEDOUT;
  omf.size = 0; omf.nread = 0;
  out.e.mf = &omf;
  waitmode = 0;
  st = pctldb_rcv_pce(pdb, &out.e, 100, &de);
  VP_ASSERT(!held, "the queue lock is released");
  VP_ASSERT(out.e.mf == &omf, "the receiver keeps its own memory file");
  if(rh == n) VP_ASSERT(st == 1, "an empty queue says so");
  else if(!anyfault && !(small && nomem)){
    VP_ASSERT(st == 0, "a queued product is delivered");
    check(st);
  }else{
    VP_ASSERT(st == -1 && de != 0, "a product that cannot be retrieved is reported");
    VP_ASSERT(nrealloc == 0 || omf.p == obuf || omf.p == bigger, "the memory is what it was");
  }
}
static void initfifo(void){
  int de = 0;
  setup();
  VP_ASSERT(pctldb_open(&pdb, &par, &de) == 0, "the queue opens");
  omf.p = obuf; omf.allocsize = omf.maxallocsize = sizeof(obuf);
  pdb->last_tsqueue.tv_sec = (time_t)vp_nd_urange(0, 0xffffffffffULL);
  pdb->last_tsqueue.tv_nsec = (long)vp_nd_urange(0, 999999999);
}
/* no errors: the schedules of two (three) products */
static void run(const char *sched){
  for(; *sched != '\0'; ++sched){
    if(*sched == 'S') send(); else receive();
  }
}
void fifo(void){
  initfifo();
#if K == 2
  if(vp_nd_bool()) run("SSRR"); else run("SRSR");
#else
  switch(vp_nd_range(0, 4)){
  case 0: run("SSSRRR"); break;
  case 1: run("SSRSRR"); break;
  case 2: run("SSRRSR"); break;
  case 3: run("SRSSRR"); break;
  default: run("SRSRSR"); break;
  }
#endif
  VP_ASSERT(rh == rt && rt == K, "every product is delivered");
  VP_ASSERT(pdb->n == 0 && pdb->mf_total_size == 0, "an empty queue is counted as empty");
  VP_REACH("all");
  if(omf.p == bigger) VP_REACH("grown");
}
/* one product, any error; and one sent while the receiver waits */
void fifo_faults(void){
  int st;
  initfifo();
  if(vp_nd_bool()){
    faults = 1;
    st = send();
    if(st == 0) receive();
    else{
      int de = 0;
      faults = 0;
      wstat = ETIMEDOUT; nomem = 0; anyfault = 0; omf.size = 0; out.e.mf = &omf;
      st = pctldb_rcv_pce(pdb, &out.e, 100, &de);
      VP_ASSERT(st != 0, "what was refused is never delivered as good");
      if(st == -1) VP_REACH("lost-content");
    }
  }else{
    int de = 0;
    nomem = 0; wstat = ETIMEDOUT; waitmode = 1; nwait = 0; anyfault = 0;
    out.e.mf = &omf;
    st = pctldb_rcv_pce(pdb, &out.e, 100, &de);
    VP_ASSERT(st == 0, "a product that arrives during the wait is delivered");
    check(st);
    VP_REACH("waited");
  }
}

/* ------------------------------------------------------------------ P02 */
#define MB (1024UL*1024UL)
void queue_limits(void){
  int st, de = 0, n, over;
  size_t total;
  setup();
  plain = 1;
  qn0 = vp_nd_u32(); mf0 = vp_nd_u32(); mf1 = vp_nd_u32();
  VP_ASSUME(qn0 < 0xfffffff0);
  par.hardlimit = vp_nd_u32(); par.softlimit = vp_nd_u32();
  par.mf_hardlimit_mb = (size_t)vp_nd_urange(0, 1 << 20); par.mf_softlimit_mb = (size_t)vp_nd_urange(0, 1 << 20);
  VP_ASSERT(pctldb_open(&pdb, &par, &de) == 0, "the queue opens");
  total = (size_t)mf0 + mf1;
  VP_ASSERT(pdb->n == qn0 && pdb->mf_total_size == total, "the counters start at what the queue holds");
  faults = 1;
  pc.e.mf = &mf;
  clk.tv_sec = 5; clk.tv_nsec = 1;
  if(vp_nd_bool()){
    mf.size = vp_nd_u32(); mf.p = content;
    over = (par.mf_hardlimit_mb != 0 && total + mf.size > par.mf_hardlimit_mb*MB) || (par.hardlimit != 0 && qn0 >= par.hardlimit);
    st = pctldb_send_pce(pdb, &pc.e, &de);
    VP_ASSERT(!held, "the queue lock is released");
    VP_ASSERT((st == 2) == over, "a product is refused exactly when it would exceed a hard limit");
    if(over){
      VP_ASSERT(qputs == 0 && mputs == 0, "nothing is stored of a product that is refused");
      VP_ASSERT(pdb->n == qn0 && pdb->mf_total_size == total, "a product that is refused is not counted");
      VP_REACH("refused");
    }else if(anyfault){
      VP_ASSERT(st == -1, "an error is reported");
      VP_ASSERT(pdb->n == qn0 + (mputs > 0) && pdb->mf_total_size == total, "only what was stored is counted");
    }else{
      VP_ASSERT(pdb->n == qn0 + 1 && pdb->mf_total_size == total + mf.size && plain_n == mf.size, "an accepted product is counted once");
      VP_ASSERT((st == 1) == ((par.softlimit != 0 && qn0 + 1 >= par.softlimit) || (par.mf_softlimit_mb != 0 && total + mf.size > par.mf_softlimit_mb*MB)),
		"the soft limits are told");
      if(st == 1) VP_REACH("soft");
      if(st == 0 && total > 5000) VP_REACH("accepted");
    }
  }else{
    VP_ASSUME(qn0 > 0);
    plain_get = vp_nd_u32();
    VP_ASSUME(plain_get <= total);
    omf.p = obuf; omf.allocsize = omf.maxallocsize = vp_nd_u32();
    VP_ASSUME(omf.allocsize > 0);
    out.e.mf = &omf;
    nomem = vp_nd_bool();
    st = pctldb_rcv_pce(pdb, &out.e, 0, &de);
    VP_ASSERT(!held, "the queue lock is released");
    if(!anyfault && !(small && nomem)){
      VP_ASSERT(st == 0 && pdb->n == qn0 - 1 && pdb->mf_total_size == total - plain_get, "a delivered product is no longer counted");
      VP_ASSERT(get_memfile_allocated_size(&omf) >= plain_get, "there is room for the content");
      VP_REACH("delivered");
      if(small) VP_REACH("enlarged");
    }else VP_ASSERT(st == -1, "an error is reported");
  }
}

/* ------------------------------------------------------------------ P03 */
#ifndef MAXSEC
#define MAXSEC 63
#endif
void pctl_timeout(void){
  int st, de = 0, ms;
  int q, r, cy;
  long ns;
  setup();
  VP_ASSERT(pctldb_open(&pdb, &par, &de) == 0, "the queue opens");
  now.tv_sec = (time_t)vp_nd_urange(0, 0xffffffffffULL);
  now.tv_usec = (suseconds_t)vp_nd_urange(0, 999999);
  /* the interval as seconds and milliseconds */
  q = vp_nd_range(0, MAXSEC); r = vp_nd_range(0, 999);
  ms = vp_nd_bool() ? q*1000 + r : -1;
  if(vp_nd_bool()){ wstat = ETIMEDOUT; st = pctldb_rcv_pce(pdb, &out.e, ms, &de); }
  else{ wstat = 22; st = pctldb_rcv_pce(pdb, &out.e, ms, &de); }
  VP_ASSERT(nwait == 1, "an empty queue is waited for");
  VP_ASSERT(tz == (ms >= 0), "a negative time means to wait with no limit");
  if(ms >= 0){
    VP_ASSERT(deadline.tv_nsec >= 0 && deadline.tv_nsec < 1000000000, "the deadline is a valid instant");
    ns = (long)now.tv_usec*1000L + (long)r*1000000L;
    cy = ns >= 1000000000L;
    VP_ASSERT(deadline.tv_sec == now.tv_sec + q + cy && deadline.tv_nsec == ns - (cy ? 1000000000L : 0L), "the deadline is the interval after the current time");
    VP_ASSERT(st == (wstat == ETIMEDOUT ? 1 : -1), "a time out is told apart from an error");
    if(now.tv_usec > 500000 && r > 600) VP_REACH("carry");
  }else{
    VP_ASSERT(st == -1 && de == 22, "an error is reported");
    VP_REACH("forever");
  }
}
