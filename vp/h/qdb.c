/* the queues toward filters and servers: src/nbspq.c over src/libqdb/qdb.c, over a model of the db library */
#include <pthread.h>
#include <stddef.h>
#include <sys/time.h>
#include "vp.h"
#include "globals.h"
#include "const.h"
#include "nbspq.h"
#include "libqdb/qdb.h"

struct nbsp_globals g;
#ifndef K
#define K 3
#endif
#define NQ K
#define RL 6		/* record length */
#define NCH 2

static int held[NCH], lockfail;
static struct nbspq_st *chan(int i){ return(g.qtable->nbspq[i]); }
static int which(pthread_mutex_t *m){ return(m == &chan(0)->mutex ? 0 : 1); }
int VP_STUB(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a){ (void)m; (void)a; return(0); }
int VP_STUB(pthread_mutex_destroy)(pthread_mutex_t *m){ (void)m; return(0); }
int VP_STUB(pthread_cond_init)(pthread_cond_t *m, const pthread_condattr_t *a){ (void)m; (void)a; return(0); }
int VP_STUB(pthread_cond_destroy)(pthread_cond_t *m){ (void)m; return(0); }
static int nsignal;
int VP_STUB(pthread_cond_signal)(pthread_cond_t *c){ ++nsignal; return(0); }
int VP_STUB(pthread_mutex_lock)(pthread_mutex_t *m){
  int i = which(m);
  VP_ASSERT(!held[i], "the queue lock is not taken twice");
  if(lockfail && vp_nd_bool()) return(22);
  held[i] = 1; return(0);
}
int VP_STUB(pthread_mutex_unlock)(pthread_mutex_t *m){ int i = which(m); VP_ASSERT(held[i], "the queue lock is released by its holder"); held[i] = 0; return(0); }
static int nwait, waitmode, tz, wstat;
static struct timespec deadline;
static int other(void);
int VP_STUB(pthread_cond_timedwait)(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts){
  (void)c;
  VP_ASSERT(held[which(m)], "waits are made with the lock");
  deadline = *ts; ++nwait; tz = 1;
  if(waitmode && nwait == 1){ other(); return(0); }
  return(wstat);
}
int VP_STUB(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *m){
  (void)c;
  VP_ASSERT(held[which(m)], "waits are made with the lock");
  ++nwait; tz = 0;
  return(22);
}
static struct timeval now;
int VP_STUB(gettimeofday)(struct timeval *tv, void *tzp){ (void)tzp; *tv = now; return(0); }
char *VP_STUB(db_strerror)(int e){ (void)e; return("db"); }
int VP_STUB(const_fpath_packet_maxsize)(void){ return(RL); }

static DB dbs[NCH];
static DB_MPOOLFILE mp;
static int ndb, nclosed[NCH], openfail, faults, anyfault, plain, nput[NCH], nget[NCH], ntrunc;
static u_int32_t rl, qn0;
static char q[NCH][NQ][RL]; static int qh[NCH], qt[NCH];
static int err(void){ return(vp_nd_bool() ? 22 : -30973); }
static int fault(void){ if(faults && vp_nd_bool()){ anyfault = 1; return(1); } return(0); }
static int dx(DB *d){ return(d == &dbs[0] ? 0 : 1); }
static int m_relen(DB *d, u_int32_t n){ (void)d; if(openfail && vp_nd_bool()) return(err()); rl = n; return(0); }
static int m_getrelen(DB *d, u_int32_t *n){ (void)d; if(fault()) return(err()); *n = rl; return(0); }
static int m_ext(DB *d, u_int32_t n){ (void)d; (void)n; return(openfail && vp_nd_bool() ? err() : 0); }
static int m_mflags(DB_MPOOLFILE *m, u_int32_t fl, int on){ return(openfail && vp_nd_bool() ? err() : 0); }
static int m_cache(DB *d, u_int32_t a, u_int32_t b, int n){ return(openfail && vp_nd_bool() ? err() : 0); }
static DB_MPOOLFILE *m_mpf(DB *d){ return(&mp); }
static int m_open(DB *d, DB_TXN *t, const char *f, const char *b, DBTYPE ty, u_int32_t fl, int mode){
  VP_ASSERT(ty == DB_QUEUE, "the queue is a queue");
  return(openfail && vp_nd_bool() ? err() : 0);
}
static int m_close(DB *d, u_int32_t fl){ ++nclosed[dx(d)]; return(0); }
static int m_stat(DB *d, DB_TXN *t, void *sp, u_int32_t fl){
  DB_QUEUE_STAT *s;
  if(openfail && vp_nd_bool()) return(err());
  s = malloc(sizeof(*s));
  VP_ASSUME(s != NULL);
  s->qs_ndata = qn0;
  *(DB_QUEUE_STAT**)sp = s;
  return(0);
}
static int m_put(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t fl){
  int i, j, x = dx(d);
  VP_ASSERT(held[x], "a queue is changed with its lock");
  VP_ASSERT(fl == DB_APPEND, "messages are added at the end");
  if(v->size > rl) return(22);
  ++nput[x];
  if(fault()) return(err());
  if(plain) return(0);
  VP_ASSERT(qt[x] < NQ, "only the messages sent are added");
  for(i = 0; i < NQ; ++i) if(i == qt[x])
    for(j = 0; j < RL; ++j) q[x][i][j] = (u_int32_t)j < v->size ? ((char*)v->data)[j] : 0;
  ++qt[x];
  return(0);
}
static int m_get(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t fl){
  int i, j, x = dx(d);
  VP_ASSERT(held[x], "a queue is changed with its lock");
  VP_ASSERT(fl == DB_CONSUME, "messages are removed from the head");
  VP_ASSERT((v->flags & DB_DBT_USERMEM) && v->ulen >= rl, "a record is read into room that is there");
  ++nget[x];
  if(fault()) return(err());
  if(plain) return(0);
  if(qh[x] == qt[x]) return(DB_NOTFOUND);
  for(i = 0; i < NQ; ++i) if(i == qh[x]) for(j = 0; j < RL; ++j) ((char*)v->data)[j] = q[x][i][j];
  ++qh[x];
  v->size = rl;
  return(0);
}
static int truncfault;
static int m_trunc(DB *d, DB_TXN *t, u_int32_t *c, u_int32_t fl){
  int x = dx(d);
  VP_ASSERT(held[x], "a queue is changed with its lock");
  ++ntrunc;
  if(fault()){ truncfault = 1; return(err()); }
  qh[x] = qt[x];
  if(c != NULL) *c = 0;
  return(0);
}
static void fill(DB *d){
  d->set_re_len = m_relen; d->get_re_len = m_getrelen; d->set_q_extentsize = m_ext; d->set_cachesize = m_cache; d->get_mpf = m_mpf;
  d->open = m_open; d->close = m_close; d->stat = (void*)m_stat; d->put = m_put; d->get = m_get; d->truncate = m_trunc;
}
int VP_STUB(db_create)(DB **p, DB_ENV *e, u_int32_t fl){
  VP_ASSERT(ndb < NCH, "one data base for each queue");
  if(openfail && vp_nd_bool()) return(err());
  if(ndb == 0) *p = &dbs[0]; else *p = &dbs[1];
  ++ndb;
  return(0);
}

static char dbname[] = "/q";
static void setup(void){
  fill(&dbs[0]); fill(&dbs[1]); mp.set_flags = m_mflags;
  g.queue_numchannels = NCH;
  g.qdb_dbfname = vp_nd_bool() ? NULL : dbname;
  g.f_filter_thread_created = g.f_server_thread_created = 1;
  g.queue_read_timeout_ms = 100;
}
void nbspq_open(void){
  setup();
  openfail = 1;
  if(init_nbspq() != 0){
    VP_ASSERT(nclosed[0] == (ndb > 0) && nclosed[1] == (ndb > 1), "a queue that cannot be opened is closed, once");
    VP_ASSERT(vp_log_count > 0, "a failure to open the queues is reported");
    VP_REACH("open-fails");
  }else{
    VP_ASSERT(ndb == NCH && g.qtable->n == NCH, "each queue is opened");
    VP_REACH("open");
    kill_nbspq();
    VP_ASSERT(nclosed[0] == 1 && nclosed[1] == 1, "each queue is closed once");
  }
}

/* order and content */
static char ref[NCH][NQ][RL]; static int rh[NCH], rt[NCH];
static int sndx(int x){
  char m[RL]; int j, st, r = 0; unsigned n0 = nbspqt_n(g.qtable, x);
  for(j = 0; j < RL; ++j) m[j] = (char)vp_nd_u8();
  anyfault = 0; nsignal = 0;
  st = x == FILTER_Q_INDEX ? e_nbspq_snd_filter(m, RL) : e_nbspq_snd_server(m, RL);
  VP_ASSERT(!held[0] && !held[1], "the queue lock is released");
  VP_ASSERT((st == 0) == !anyfault && (st == 0 || st == -1), "a message is accepted, or its error is reported");
  VP_ASSERT(nbspqt_n(g.qtable, x) == n0 + (st == 0), "the messages accepted are counted");
  if(st == 0){
    VP_ASSERT(nsignal > 0, "the receiver is told of a new message");
    for(j = 0; j < RL; ++j) ref[x][rt[x]][j] = m[j];
    ++rt[x];
  }
  return(st);
}
static int other(void){
  int r;
  held[FILTER_Q_INDEX] = 0;
  r = sndx(FILTER_Q_INDEX);
  held[FILTER_Q_INDEX] = 1;
  return(r);
}
static char room[RL];
static void rcvx(int x){
  void *p = room; size_t n = RL; int st, j;
  anyfault = truncfault = 0; nwait = 0; wstat = ETIMEDOUT;
  st = x == FILTER_Q_INDEX ? e_nbspq_rcv_filter(&p, &n) : e_nbspq_rcv_server(&p, &n);
  VP_ASSERT(!held[0] && !held[1], "the queue lock is released");
  if(rh[x] == rt[x]) VP_ASSERT(st == 1, "an empty queue says so");
  else if(anyfault) VP_ASSERT(st != 0 && st != 1, "a message that cannot be retrieved is reported");
  else{
    VP_ASSERT(st == 0 && p == room && n == RL, "a queued message is delivered whole");
    for(j = 0; j < RL; ++j) VP_ASSERT(room[j] == ref[x][rh[x]][j], "a message is delivered unchanged and in order");
    ++rh[x];
  }
}
static void run(const char *s){
  for(; *s != '\0'; ++s){
    if(*s == 'S') sndx(FILTER_Q_INDEX);
    else if(*s == 'R') rcvx(FILTER_Q_INDEX);
    else if(*s == 's') sndx(SERVER_Q_INDEX);
    else rcvx(SERVER_Q_INDEX);
  }
}
void nbspq_fifo(void){
  setup();
  VP_ASSERT(init_nbspq() == 0, "the queues open");
  switch(vp_nd_range(0, 5)){
  case 0: run("SSSRRRR"); break;
  case 1: run("SSRSRR"); break;
  case 2: run("SSRRSR"); break;
  case 3: run("SRsSRrrR"); break;
  case 4: run("sSsrRr"); break;
  default: run("SsRrSSRsrR"); break;
  }
  VP_ASSERT(rh[0] == rt[0] && rh[1] == rt[1], "every message is delivered");
  VP_ASSERT(nbspqt_n(g.qtable, 0) == 0 && nbspqt_n(g.qtable, 1) == 0, "an empty queue is counted as empty");
  VP_REACH("all");
}
void nbspq_faults(void){
  setup();
  VP_ASSERT(init_nbspq() == 0, "the queues open");
  if(vp_nd_bool()){
    faults = 1;
    if(sndx(FILTER_Q_INDEX) == 0){ rcvx(FILTER_Q_INDEX); if(anyfault) VP_REACH("get-fails"); }
    else{ faults = 0; rcvx(FILTER_Q_INDEX); VP_REACH("put-fails"); }
  }else{
    void *p = room; size_t n = RL; int j;
    waitmode = 1; wstat = ETIMEDOUT;
    VP_ASSERT(e_nbspq_rcv_filter(&p, &n) == 0, "a message that arrives during the wait is delivered");
    for(j = 0; j < RL; ++j) VP_ASSERT(room[j] == ref[FILTER_Q_INDEX][0][j], "a message is delivered unchanged");
    VP_REACH("waited");
  }
}
/* one message to a queue of any length, with any limits */
void nbspq_limits(void){
  int st, x = FILTER_Q_INDEX; unsigned n0, n1; char m[RL];
  setup();
  plain = 1;
  qn0 = (u_int32_t)vp_nd_range(0, 0x7fffffff - 1);
  g.queue_maxsize_soft = vp_nd_range(0, 0x7fffffff); g.queue_maxsize_hard = vp_nd_range(0, 0x7fffffff);
  VP_ASSERT(init_nbspq() == 0, "the queues open");
  n0 = nbspqt_n(g.qtable, x);
  VP_ASSERT(n0 == qn0, "the counter starts at what the queue holds");
  faults = 1;
  g.f_filter_thread_created = vp_nd_bool();
  if(vp_nd_bool()){
    int over = g.queue_maxsize_hard != 0 && qn0 >= (u_int32_t)g.queue_maxsize_hard;
    vp_log_count = 0;
    st = e_nbspq_snd_filter(m, RL);
    n1 = nbspqt_n(g.qtable, x);
    if(!g.f_filter_thread_created) VP_ASSERT(st == 0 && n1 == n0 && nput[0] + nput[1] == 0, "nothing is queued for filters that do not run");
    else if(over){
      VP_ASSERT(st == -1 && n1 == n0 && nput[x] == 0 && vp_log_count > 0, "a message above the hard limit is refused and the refusal reported");
      VP_REACH("refused");
    }else if(anyfault) VP_ASSERT(st == -1 && n1 == n0 && vp_log_count > 0, "an error is reported");
    else{
      VP_ASSERT(st == 0 && n1 == n0 + 1 && nput[x] == 1, "a message below the limit is queued once, and counted");
      if(g.queue_maxsize_soft != 0 && (int)n0 + 1 >= g.queue_maxsize_soft){
        vp_log_count = 0;
	e_nbspq_report_quota();
	VP_ASSERT(vp_log_count > 0, "a queue above its soft limit is reported");
        VP_REACH("soft");
      }
    }
    VP_ASSERT(nput[!x] == 0, "a message goes to its own queue");
  }else{
    void *p = room; size_t n = RL;
    VP_ASSUME(qn0 > 0);
    st = e_nbspq_rcv_filter(&p, &n);
    n1 = nbspqt_n(g.qtable, x);
    VP_ASSERT(nget[!x] == 0, "a message comes from its own queue");
    if(!anyfault){
      VP_ASSERT(st == 0 && n1 == n0 - 1 && nget[x] == 1, "a delivered message is no longer counted");
      VP_ASSERT(ntrunc == 0 || n0 == 1, "a queue that holds messages is not emptied");
      VP_REACH("delivered");
    }else VP_ASSERT(st != 0 && (n1 == n0 || truncfault), "an error is reported");
  }
}
/* P03 */
#ifndef MAXSEC
#define MAXSEC 63
#endif
void nbspq_timeout(void){
  int st, r, s, cy; long ns; void *p = room; size_t n = RL;
  setup();
  VP_ASSERT(init_nbspq() == 0, "the queues open");
  now.tv_sec = (time_t)vp_nd_urange(0, 0xffffffffffULL);
  now.tv_usec = (suseconds_t)vp_nd_urange(0, 999999);
  s = vp_nd_range(0, MAXSEC); r = vp_nd_range(0, 999);
  g.queue_read_timeout_ms = vp_nd_bool() ? s*1000 + r : -1;
  if(vp_nd_bool()){ wstat = ETIMEDOUT; st = e_nbspq_rcv_filter(&p, &n); }
  else{ wstat = 22; st = e_nbspq_rcv_filter(&p, &n); }
  VP_ASSERT(nwait == 1, "an empty queue is waited for");
  VP_ASSERT(tz == (g.queue_read_timeout_ms >= 0), "a negative time means to wait with no limit");
  if(tz){
    ns = (long)now.tv_usec*1000L + (long)r*1000000L;
    cy = ns >= 1000000000L;
    VP_ASSERT(deadline.tv_nsec >= 0 && deadline.tv_nsec < 1000000000, "the deadline is a valid instant");
    VP_ASSERT(deadline.tv_sec == now.tv_sec + s + cy && deadline.tv_nsec == ns - (cy ? 1000000000L : 0L), "the deadline is the interval after the current time");
    VP_ASSERT(st == (wstat == ETIMEDOUT ? 1 : -1), "a time out is told apart from an error");
    if(cy) VP_REACH("carry");
  }else{
    VP_ASSERT(st == -1, "an error is reported");
    VP_REACH("forever");
  }
}
