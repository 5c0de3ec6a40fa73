/* src/libspoolbdb: the ring of data bases (spoolbdbv.c, spoolbdb.c) and the read slots (spoolslots.c, mspoolbdb.c) */
#include "vp.h"
#include <stdio.h>
#include <pthread.h>
#include <db.h>
#include "libspoolbdb/mspoolbdb.h"
#define ND 3
static DB d[ND]; static DB *dbv[ND + 2]; static struct spoolbdbv_st sv; static char key[] = "k", cont[8];
static int held, mtx, trst[ND], ntr, trdb[ND], putst, nput, putdb, getst[ND], nget, getdb[ND + 1]; static uint32_t psize; static void *pdata;
static struct mspoolbdb_st ms;
static struct spoolbuf_slots_st sl;
static int slheld, slmtx, waits, waitst[3], nsig, sigst;
int VP_STUB(pthread_mutex_lock)(pthread_mutex_t *m){
  if(m == &sv.mutex){ if(mtx) return(mtx); VP_ASSERT(!held, "locked once"); held = 1; return(0); }
  if(slmtx) return(slmtx);
  VP_ASSERT(m == &sl.mutex && !slheld, "locked once"); slheld = 1; return(0);
}
int VP_STUB(pthread_mutex_unlock)(pthread_mutex_t *m){
  if(m == &sv.mutex){ VP_ASSERT(held, "locked before"); held = 0; return(0); }
  VP_ASSERT(m == &sl.mutex && slheld, "locked before"); slheld = 0; return(0);
}
int VP_STUB(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a){ (void)m; (void)a; return(0); }
int VP_STUB(pthread_mutex_destroy)(pthread_mutex_t *m){ (void)m; return(0); }
int VP_STUB(pthread_cond_init)(pthread_cond_t *m, const pthread_condattr_t *a){ (void)m; (void)a; return(0); }
int VP_STUB(pthread_cond_destroy)(pthread_cond_t *m){ (void)m; return(0); }
int VP_STUB(pthread_cond_signal)(pthread_cond_t *c){ VP_ASSERT(c == &sl.cond, "who waits for a slot is told"); ++nsig; return(sigst); }
int VP_STUB(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *m){
  VP_ASSERT(c == &sl.cond && m == &sl.mutex && slheld && waits < 3, "a free slot is waited for");
  ++waits;
  /* woken up for nothing, by a slot that is freed, or a failure */
  if(waitst[waits - 1] == 1){ sl.status[1] = 0; --sl.numslots; }
  return(waitst[waits - 1] == 2 ? 22 : 0);
}
static int which(DB *p){ int k; for(k = 0; k < ND; ++k) if(p == &d[k]) return(k); VP_ASSERT(0, "one of the data bases"); return(0); }
static int f_trunc(DB *p, DB_TXN *t, u_int32_t *c, u_int32_t f){
  int k = which(p);
  VP_ASSERT(held && t == NULL && f == 0 && ntr < ND, "emptied with the lock"); *c = 1; trdb[ntr++] = k; return(trst[k]); }
static int f_put(DB *p, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){
  VP_ASSERT(held && t == NULL && f == 0 && k->data == key && k->size == 1, "written with the lock, under the key");
  ++nput; putdb = which(p); psize = v->size; pdata = v->data; return(putst); }
static int f_get(DB *p, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){
  int n = which(p);
  VP_ASSERT(held && t == NULL && f == 0 && k->data == key && k->size == 1 && v->flags == DB_DBT_USERMEM && nget <= ND, "read with the lock");
  getdb[nget++] = n;
  if(getst[n] == 0) v->size = 3;
  return(getst[n]);
}
static void ring(int n, int p){
  int k;
  for(k = 0; k < ND + 2; ++k) dbv[k] = NULL;
  for(k = 0; k < n; ++k){ dbv[k + 1] = &d[k]; d[k].truncate = f_trunc; d[k].put = f_put; d[k].get = f_get; }
  sv.dbv = dbv; sv.wrdb = &dbv[p + 1]; sv.Ndb = n;
}
static int at(void){ int k; for(k = 0; k < ND; ++k) if(sv.wrdb == &dbv[k + 1]) return(k); return(-1); }
#ifdef WRITE
static void one(int n, int p, int op, int ts){
  uint32_t size = vp_nd_u32(), max = vp_nd_u32(), sz = vp_nd_u32(), n0 = vp_nd_u32() & 0xffff; int st, k, want, w;
  static struct spoolbuf_st b;
  ring(n, p); mtx = 0;
  VP_ASSUME(size <= max);
  sv.size = size; sv.maxsize = max; sv.n = n0;
  for(k = 0; k < ND; ++k) trst[k] = ts == k ? 5 : 0;
  putst = vp_nd_range(0, 2); if(putst == 1) putst = ENOMEM; if(putst == 2) putst = 22;
  w = p + 1 == n ? 0 : p + 1;
  if(op <= 1){
    b.buffer = cont; b.buffer_size = sz;
    ms.spoolbdbv = &sv;
    st = op == 0 ? mspoolbdb_insert(&ms, key, cont, sz) : spoolbdbv_write(&sv, key, &b);
    if(sz > max){
      VP_ASSERT(st != 0 && nput == 0 && ntr == 0 && at() == p && sv.size == size && sv.n == n0, "what does not fit in a data base is refused and nothing is lost");
      VP_ASSERT(st != ENOMEM, "and it is not taken for a lack of memory");
#ifndef NOREACH
      VP_REACH("too large");
#endif
    }else if((uint64_t)size + sz > max){
      VP_ASSERT(ntr == 1 && trdb[0] == w && at() == w, "only the oldest is emptied when there is no room");
      if(trst[w]) VP_ASSERT(st == 5 && nput == 0, "a failure is reported");
      else{
        VP_ASSERT(nput == 1 && putdb == w && psize == sz && pdata == cont && st == putst, "then it is written there");
        VP_ASSERT(sv.size == (putst ? 0 : sz) && sv.n == (putst ? 0 : 1), "and counted");
#ifndef NOREACH
        VP_REACH("rotated");
#endif
      }
    }else{
      VP_ASSERT(ntr == 0 && at() == p && nput == 1 && putdb == p && psize == sz && pdata == cont && st == putst, "what fits is written in the present one");
      VP_ASSERT(sv.size == size + (putst ? 0 : sz) && sv.n == n0 + (putst ? 0 : 1), "and counted");
#ifndef NOREACH
      VP_REACH("written");
#endif
    }
    VP_ASSERT(sv.size <= max, "a data base never grows over its size");
  }else if(op == 2){
    st = spoolbdbv_truncate_oldest(&sv);
    VP_ASSERT(ntr == 1 && trdb[0] == w && nput == 0, "only the oldest is emptied");
    if(trst[w]) VP_ASSERT(st == 5 && at() == p && sv.size == size, "a failure is reported");
    else VP_ASSERT(st == 0 && at() == w && sv.size == 0 && sv.n == 0, "and written next");
  }else{
    st = spoolbdbv_truncate(&sv);
    want = 0;
    for(k = 0; k < n; ++k) if(trst[k]) want = 5;
    VP_ASSERT(st == want, "a failure is reported");
    if(st == 0){
      VP_ASSERT(ntr == n && sv.size == 0 && sv.n == 0, "all are emptied");
      for(k = 0; k < ND; ++k) if(k < n) VP_ASSERT(trdb[k] == n - 1 - k, "all are emptied");
    }
    VP_ASSERT(at() >= 0 && at() < n, "one of them is written next");
    if(ntr > 0 && trst[trdb[0]] == 0 && st == 0) VP_ASSERT(at() == 0, "the first is written next");
  }
  VP_ASSERT(!held, "unlocked at the end");
}
void spoolwrite(void){
  int c = vp_nd_range(0, 6*4*(ND + 1) - 1), n, p, op, ts, i = 0;
  for(n = 1; n <= ND; ++n) for(p = 0; p < n; ++p) for(op = 0; op < 4; ++op) for(ts = -1; ts < ND; ++ts){ if(c == i ONLY){ one(n, p, op, ts); VP_DONE(); } ++i; }
}
#endif
#ifdef READ
static struct spoolbuf_st b;
static void one(int n, int p, int a, int op){
  int k, e, st, want, last = -1, s[ND];
  ring(n, p); b.buffer = cont; b.max_buffer_size = 8; b.buffer_size = 99; b.readp = NULL; b.nread = 7;
  for(k = 0; k < ND; ++k){ s[k] = a % 3; a /= 3; getst[k] = s[k] == 0 ? DB_NOTFOUND : s[k] == 1 ? 0 : 5; }
  st = spoolbdbv_read(&sv, key, &b);
  want = DB_NOTFOUND; e = p;
  for(k = 0; k < n; ++k){
    VP_ASSERT(k < nget && getdb[k] == e, "the newest is looked at first, then the one before");
    if(s[e] != 0){ want = getst[e]; last = e; ++k; break; }
    e = e == 0 ? n - 1 : e - 1;
  }
  VP_ASSERT(nget == k && st == want, "it is found wherever it is, or it is said that it is not there");
  if(want == 0) VP_ASSERT(b.buffer_size == 3 && b.readp == cont && b.nread == 0 && b.buffer == cont, "and can be read from its start");
  else VP_ASSERT(b.buffer_size == 99 && b.nread == 7, "nothing is read");
  VP_ASSERT(at() == p && nput == 0 && ntr == 0 && !held, "reading changes nothing");
  (void)last; (void)op;
  if(want == DB_NOTFOUND) VP_REACH("not there");
  if(want == 0 && n == 3 && last != p) VP_REACH("found in an older one");
}
void spoolread(void){
  int c = vp_nd_range(0, 6*27 - 1), n, p, a, i = 0;
  for(n = 1; n <= ND; ++n) for(p = 0; p < n; ++p) for(a = 0; a < 27; ++a){ if(c == i){ one(n, p, a, 0); VP_DONE(); } ++i; }
}
#endif
#ifdef BUF
/* one buffer: the product grows over what there is room for; read in parts */
static struct spoolbuf_st b; static char old[4], prod[8], big[8]; static int nm, moom, nfr, ng, st0, st1, psz;
void *VP_STUB(malloc)(size_t n){ ++nm; VP_ASSERT(n == (size_t)psz, "room for the whole product"); if(moom){ errno = ENOMEM; return(NULL); } return(big); }
void VP_STUB(free)(void *p){ VP_ASSERT(p == old, "the smaller buffer is given back"); ++nfr; }
static int bget(DB *p, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){
  int i, st = ng++ == 0 ? st0 : st1;
  (void)p; (void)t; (void)f;
  VP_ASSERT(k->data == key && k->size == 1 && v->flags == DB_DBT_USERMEM && ng <= 2, "the key is read");
  if(st) return(st);
  v->size = psz;
  if(v->ulen < (uint32_t)psz) return(DB_BUFFER_SMALL);
  VP_ASSERT((v->data == NULL && v->ulen == 0) || (v->data == old && v->ulen <= 4) || (v->data == big && v->ulen == (uint32_t)psz), "the room there is");
  for(i = 0; i < 8; ++i) if(i < psz) ((char*)v->data)[i] = prod[i];
  return(0);
}
extern int spoolbdb_read(DB *dbp, char *fkey, struct spoolbuf_st *spoolb);
static void one(int room, int n, int a, int f){
  int k, st, r1, r2; static char o[8];
  vp_nd_bytes(prod, 8); d[0].get = bget; psz = n;
  b.buffer = room ? old : NULL; b.max_buffer_size = room; b.buffer_size = 77;
  moom = f == 1; st0 = f == 2 ? DB_NOTFOUND : f == 3 ? 5 : 0; st1 = f == 4 ? 5 : 0;
  st = spoolbdb_read(&d[0], key, &b);
  if(st0){ VP_ASSERT(st == st0 && b.buffer_size == 77 && nm == 0, "not found or a failure is reported"); return; }
  if(n > room){
    if(moom){ VP_ASSERT(st == ENOMEM && b.buffer == (room ? (void*)old : NULL) && b.max_buffer_size == (uint32_t)room && b.buffer_size == 77, "lack of memory is reported and the buffer kept"); return; }
    VP_ASSERT(nm == 1 && nfr == (room != 0) && b.buffer == big && b.max_buffer_size == (uint32_t)n, "the buffer is made larger");
    if(st1){ VP_ASSERT(st == 5 && b.buffer_size == 77, "a failure is reported"); return; }
  }else VP_ASSERT(nm == 0 && nfr == 0, "there was room");
  VP_ASSERT(st == 0 && spoolbuf_datasize(&b) == (size_t)n, "the product is as large as it was");
  r1 = spoolbuf_read(&b, o, a);
  VP_ASSERT(r1 == (a < n ? a : n), "as much as asked or there is");
  r2 = spoolbuf_read(&b, o + r1, 8 - r1);
  VP_ASSERT(r1 + r2 == n, "the rest follows");
  for(k = 0; k < 8; ++k) if(k < n) VP_ASSERT(o[k] == prod[k], "the product is unchanged");
  VP_ASSERT(spoolbuf_read(&b, o, 1) == 0, "then there is nothing more");
  spoolbuf_read_init(&b);
  if(n > 0) VP_ASSERT(spoolbuf_read(&b, o, 1) == 1 && o[0] == prod[0], "it can be read again");
  if(n > 4 && room == 4) VP_REACH("grown");
}
void spoolbuf(void){
  int c = vp_nd_range(0, 3*9*3*5 - 1), r, n, a, f, i = 0;
  for(r = 0; r <= 4; r += 2) for(n = 0; n < 9; ++n) for(a = 0; a < 3; ++a) for(f = 0; f < 5; ++f){ if(c == i){ one(r, n, a*4, f); VP_DONE(); } ++i; }
}
#endif
#ifdef SLOT
static struct spoolbuf_st bb[ND]; static struct spoolbuf_st *bp[ND]; static int sst[ND];
static char stor[ND][4];
static void one(int n, int a, int w, int op, int g){
  int k, st, sd = -7, open = 0, first = -1, s[ND], wend = 0, e;
  ring(1, 0); mtx = 0; slmtx = 0; getst[0] = g == 0 ? 0 : g == 1 ? DB_NOTFOUND : 5;
  for(k = 0; k < n; ++k){ s[k] = sst[k] = (a >> k) & 1; open += s[k]; bp[k] = &bb[k]; bb[k].buffer = stor[k]; bb[k].max_buffer_size = 4; bb[k].buffer_size = 2; bb[k].nread = 1; bb[k].readp = stor[k] + 1; }
  sl.status = sst; sl.spoolb = bp; sl.maxslots = n; sl.numslots = open;
  for(k = 0; k < 2; ++k){ waitst[k] = w % 3; w /= 3; } waitst[2] = 1;
  ms.spoolbdbv = &sv; ms.spoolslots = &sl;
  if(op == 0){
    if(open == n && n < 2) return; /* slot 1 is the one freed */
    st = mspoolbdb_slots_open(&ms, key, &sd);
    if(open == n){
      for(e = 0; e < 3 && waitst[e] == 0; ++e) ;
      VP_ASSERT(waits == e + 1, "a reader waits while there is no free slot");
      if(waitst[e] == 2){ VP_ASSERT(st == 22 && sd == -7 && nget == 0, "a failure is reported"); wend = 1; }
      else s[1] = 0;
    }else VP_ASSERT(waits == 0, "nothing to wait for");
    if(!wend){
      for(k = n - 1; k >= 0; --k) if(!s[k]) first = k;
      if(g == 0){
        VP_ASSERT(st == 0 && sd == first && sst[first] == 1, "the reader gets a free slot");
        VP_ASSERT(sl.numslots == (open == n ? n : open + 1) && bb[first].buffer_size == 3 && bb[first].nread == 0, "with the product");
        VP_ASSERT(mspoolbdb_slots_datasize(&ms, sd) == 3, "and its size");
      }else{
        VP_ASSERT(st == getst[0] && sd == -7 && sst[first] == 0 && sl.numslots == (open == n ? n - 1 : open), "the slot stays free when it is not there");
      }
    }
    for(k = 0; k < n; ++k) if(k != first) VP_ASSERT(bb[k].buffer_size == 2 && bb[k].nread == 1 && bb[k].readp == stor[k] + 1 && sst[k] == s[k], "the other readers keep what they opened");
#ifdef WREACH
    if(waits > 0 && st == 0 && g == 0) VP_REACH("waited");
#endif
  }else if(op == 1){
    if(!s[0]) return;
    sigst = g == 2 ? 5 : 0;
    st = mspoolbdb_slots_close(&ms, 0);
    VP_ASSERT(st == sigst && sst[0] == 0 && sl.numslots == open - 1 && nsig == 1, "a slot is given back and who waits is told");
    for(k = 1; k < n; ++k) VP_ASSERT(sst[k] == s[k] && bb[k].buffer_size == 2 && bb[k].nread == 1, "the others are kept");
    if(n == 3) VP_REACH("given back");
  }else{
    slmtx = 22;
    VP_ASSERT(mspoolbdb_slots_open(&ms, key, &sd) == 22 && mspoolbdb_slots_close(&ms, 0) == 22, "a failure is reported");
    for(k = 0; k < n; ++k) VP_ASSERT(sst[k] == s[k], "nothing changes");
    VP_ASSERT(sl.numslots == open, "nothing changes");
  }
  VP_ASSERT(!held && !slheld, "unlocked at the end");
}
void slots(void){
  int c = vp_nd_range(0, 14*9*3*3 - 1), n, a, w, op, g, i = 0;
  for(n = 1; n <= ND; ++n) for(a = 0; a < (1 << n); ++a) for(w = 0; w < 9; ++w) for(op = 0; op < 3; ++op) for(g = 0; g < 3; ++g){ if(c == i ONLY){ one(n, a, w, op, g); VP_DONE(); } ++i; }
}
#endif
#ifdef OPEN
/* everything is created, or nothing is left behind */
static DB_ENV env; static DB dd[ND]; static DB_MPOOLFILE mp;
static int ecr, ecs, eop, dcr[ND], dst[ND], mst, ndb, envopen, dbopen[ND], oom, nmal, nfree_, cfg_nofile, cfg_rd, cfg_mb, cfg_n, dcl[ND]; static char *cfg_home, *cfg_name;
static char nmbuf[16]; static struct spoolbdbv_st svo;
#include <stdarg.h>
int VP_STUB(snprintf)(char *b, size_t n, const char *f, ...){
  va_list ap; char *s; unsigned u; int l;
  VP_ASSERT(f[0] == '%' && f[1] == 's' && f[2] == '.' && f[3] == '%' && f[4] == 'u' && f[5] == 0, "a name and a number");
  va_start(ap, f); s = va_arg(ap, char *); u = va_arg(ap, unsigned); va_end(ap);
  VP_ASSERT(s[0] == 'd' && s[1] == 0, "the name asked for");
  l = u < 10 ? 3 : 12;
  if(b != NULL){ VP_ASSERT(u < 10 && n >= 4, "a short name"); b[0] = 'd'; b[1] = '.'; b[2] = (char)('0' + u); b[3] = 0; }
  return(l);
}
 static DB *tab[ND + 2];
void *VP_STUB(malloc)(size_t n){
  if(nmal++ == oom){ errno = ENOMEM; return(NULL); }
  if(n == sizeof(struct spoolbdbv_st)){ svo.Ndb = 9; return(&svo); }
  VP_ASSERT(n <= sizeof(nmbuf), "room for the names of the data bases"); return(nmbuf);
}
void *VP_STUB(calloc)(size_t a, size_t b){ VP_ASSERT(a*b == (size_t)(cfg_n + 2)*sizeof(DB*), "room for the data bases"); if(nmal++ == oom){ errno = ENOMEM; return(NULL); } return(tab); }
void VP_STUB(free)(void *p){ VP_ASSERT(p == &svo || p == tab || p == nmbuf, "what was allocated"); ++nfree_; }
static int e_cache(DB_ENV *e, u_int32_t gb, u_int32_t by, int n){ VP_ASSERT(e == &env && n == 0 && (uint64_t)gb*1073741824u + by == (uint64_t)cfg_mb*cfg_n*1048576u, "the cache is as large as all the data bases"); return(ecs); }
static int e_open(DB_ENV *e, const char *h, u_int32_t f, int m){
  VP_ASSERT(e == &env && h == cfg_home && m == (cfg_home ? 0640 : 0), "the environment asked for");
  VP_ASSERT((f & DB_THREAD) && (f & DB_INIT_MPOOL), "shared by the threads");
  if(cfg_home == NULL) VP_ASSERT((f & DB_CREATE) && (f & DB_PRIVATE), "a private one");
  else VP_ASSERT((f & DB_INIT_CDB) && !(f & DB_PRIVATE) && ((f & DB_CREATE) != 0) == !cfg_rd, "a shared one, created when not only read");
  return(eop); }
static int e_close(DB_ENV *e, u_int32_t f){ VP_ASSERT(e == &env && f == 0 && envopen == 1, "the environment is closed once"); envopen = 0; return(0); }
int VP_STUB(db_env_create)(DB_ENV **e, u_int32_t f){ VP_ASSERT(f == 0, "plain"); if(ecr) return(ecr); env.set_cachesize = e_cache; env.open = e_open; env.close = e_close; envopen = 1; *e = &env; return(0); }
static int m_flags(DB_MPOOLFILE *m, u_int32_t f, int on){ VP_ASSERT(m == &mp && f == DB_MPOOL_NOFILE && on == 1, "no file behind"); return(mst); }
static DB_MPOOLFILE *d_mpf(DB *p){ (void)p; mp.set_flags = m_flags; return(&mp); }
static int d_open(DB *p, DB_TXN *t, const char *f, const char *nm, DBTYPE ty, u_int32_t fl, int md){
  int k = p == &dd[0] ? 0 : p == &dd[1] ? 1 : 2;
  VP_ASSERT(t == NULL && ty == DB_BTREE && (fl & DB_THREAD) && ((fl & DB_RDONLY) != 0) == cfg_rd && ((fl & DB_CREATE) != 0) == !cfg_rd, "opened as asked for");
  VP_ASSERT(cfg_rd || md == (cfg_name ? 0600 : 0), "with the mode asked for");
  if(cfg_name == NULL) VP_ASSERT(f == NULL && nm == NULL, "a private one has no name");
  else{
    const char *x = cfg_nofile ? nm : f;
    VP_ASSERT((cfg_nofile ? f : nm) == NULL && x[0] == 'd' && x[1] == '.' && x[2] == '1' + k && x[3] == 0, "each has its own name");
  }
  return(dst[k]); }
static int d_close(DB *p, u_int32_t f){ int k = p == &dd[0] ? 0 : p == &dd[1] ? 1 : 2; VP_ASSERT(f == 0 && dbopen[k] == 1 && envopen, "a data base is closed once, before the environment"); dbopen[k] = 0; return(dcl[k]); }
int VP_STUB(db_create)(DB **p, DB_ENV *e, u_int32_t f){
  VP_ASSERT(e == &env && f == 0 && ndb < cfg_n, "in the environment");
  if(dcr[ndb]) return(dcr[ndb]);
  dd[ndb].open = d_open; dd[ndb].close = d_close; dd[ndb].get_mpf = d_mpf; dbopen[ndb] = 1; *p = &dd[ndb]; ++ndb; return(0); }
static void one(int kind, int n, int fl){
  int k, st, want = 0, left = 0, nf; struct spoolbdbv_st *o = NULL; static const int MB[5] = {1, 48, 1024, 1366, 4095}, PER[3] = {96, 128, 0}; uint32_t per = PER[(fl + n) % 3];
  /* 0 private, 1 memory with an environment, 2 shared memory, 3 files, 4 files to read */
  cfg_home = kind == 0 ? NULL : (char*)"h"; cfg_name = kind >= 2 ? (char*)"d" : NULL; cfg_nofile = kind <= 2; cfg_rd = kind == 4; cfg_n = n;
  cfg_mb = MB[(fl + kind) % 5];
  oom = fl == 1 ? 0 : fl == 2 ? 1 : fl == 3 && cfg_name ? 2 : -1; ecr = fl == 4 ? 5 : 0; ecs = fl == 5 ? 6 : 0; eop = fl == 6 ? 7 : 0;
  for(k = 0; k < ND; ++k){ dcr[k] = fl == 7 + k ? 8 : 0; dst[k] = fl == 10 + k ? 9 : 0; dcl[k] = fl == 14 && k == 0 ? 11 : 0; } mst = fl == 13 ? 10 : 0;
  want = oom >= 0 ? ENOMEM : ecr ? 5 : ecs ? 6 : eop ? 7 : (fl >= 7 && fl < 10 && fl - 7 < n) ? 8 : (fl >= 10 && fl < 13 && fl - 10 < n) ? 9 : (mst && cfg_nofile) ? 10 : 0;
  st = spoolbdbv_open(&o, cfg_home, cfg_home ? 0640 : 0, cfg_mb, per, n, cfg_name, cfg_name ? 0600 : 0, cfg_nofile, cfg_rd);
  VP_ASSERT(st == want, "a failure is reported");
  nf = nfree_;
  for(k = 0; k < ND; ++k) left += dbopen[k];
  if(st != 0) VP_ASSERT(o == NULL && left == 0 && !envopen && nf == nmal - (oom >= 0), "then nothing is left behind");
  else{
    VP_ASSERT(o == &svo && left == n && envopen && nf == (cfg_name != NULL), "all the data bases are open");
    VP_ASSERT(o->maxsize == (uint32_t)cfg_mb*8192u*per && o->size == 0 && o->n == 0 && o->Ndb == (uint32_t)n && o->wrdb == &tab[1] && tab[0] == NULL && tab[n + 1] == NULL, "empty, of the size asked for, as a ring");
    for(k = 0; k < ND; ++k) if(k < n) VP_ASSERT(tab[k + 1] == &dd[k], "as a ring");
    st = spoolbdbv_close(o);
    VP_ASSERT(st == (dcl[0] ? 11 : 0), "a failure is reported");
    left = 0;
    for(k = 0; k < ND; ++k) left += dbopen[k];
    VP_ASSERT(left == 0 && !envopen && nfree_ == nmal, "everything is closed");
    if(n == ND) VP_REACH("opened and closed");
  }
}
void spoolopen(void){
  int c = vp_nd_range(0, 5*ND*15 - 1), kd, n, f, i = 0;
  for(kd = 0; kd < 5; ++kd) for(n = 1; n <= ND; ++n) for(f = 0; f < 15; ++f){ if(c == i){ one(kd, n, f); VP_DONE(); } ++i; }
}
#endif
