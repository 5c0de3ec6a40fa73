/* the retransmission data base: src/rtxdb.c, src/ertxdb.c over a model of the db library */
#include "vp.h"
#include "globals.h"
#include "rtxdb.h"

struct nbsp_globals g;
#ifndef NHIST
#define NHIST 3
#endif

#define NREC (NHIST + 2)
struct mdb { int used; unsigned int key; int val; };
static struct mdb tab[2][NREC];
static DB dbs[2];
static int ndb, geterr;

static int db_idx(DB *d){ return(d == &dbs[0] ? 0 : 1); }
static int m_cmp(DB *d, int (*f)(DB*, const DBT*, const DBT*)){ (void)d; (void)f; return(0); }
#if DB_VERSION_MAJOR >= 6
static int m_cmp6(DB *d, int (*f)(DB*, const DBT*, const DBT*, size_t*)){ (void)d; (void)f; return(0); }
#endif
static int m_open(DB *d, DB_TXN *t, const char *f, const char *b, DBTYPE ty, u_int32_t fl, int mode){ return(0); }
static int m_close(DB *d, u_int32_t fl){ (void)d; (void)fl; return(0); }
static int puterr;
static int m_put(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t fl){
  unsigned int key; int val, i, b = db_idx(d), done = 0;
  VP_ASSERT(k->size == sizeof(key) && v->size == sizeof(int), "the record has the size of its fields");
  if(vp_nd_bool()){ puterr = 1; return(22); }
  key = *(unsigned int*)k->data; val = *(int*)v->data;
  for(i = 0; i < NREC; ++i)
    if(!done && (!tab[b][i].used || tab[b][i].key == key)){
      tab[b][i].used = 1; tab[b][i].key = key; tab[b][i].val = val; done = 1;
    }
  return(0);
}
static int m_get(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t fl){
  unsigned int key = *(unsigned int*)k->data; int i, b = db_idx(d);
  if(vp_nd_bool()){ geterr = 1; return(22); }
  for(i = 0; i < NREC; ++i)
    if(tab[b][i].used && tab[b][i].key == key){
      VP_ASSERT((v->flags & DB_DBT_USERMEM) && v->ulen >= sizeof(int), "the record is read into room that is there");
      *(int*)v->data = tab[b][i].val; v->size = sizeof(int);
      return(0);
    }
  return(DB_NOTFOUND);
}
static int truncerr;
static int m_trunc(DB *d, DB_TXN *t, u_int32_t *c, u_int32_t fl){
  int i, b = db_idx(d);
  if(vp_nd_bool()){ truncerr = 1; return(22); }
  for(i = 0; i < NREC; ++i) tab[b][i].used = 0;
  *c = 0;
  return(0);
}
int VP_STUB(db_create)(DB **p, DB_ENV *e, u_int32_t fl){
  DB *d = &dbs[ndb++];
  (void)e; (void)fl;
  d->set_bt_compare = (void*)m_cmp; d->open = m_open; d->close = m_close; d->put = m_put; d->get = m_get; d->truncate = m_trunc;
  *p = d;
  return(0);
}
char *VP_STUB(db_strerror)(int e){ (void)e; return("db"); }

/* the reference */
static struct ref { int n; unsigned int k[NHIST + 2]; int v[NHIST + 2]; } rc, ro;
static void ref_put(unsigned int k, int v){
  int i;
  for(i = 0; i < rc.n; ++i) if(rc.k[i] == k){ rc.v[i] = v; return; }
  rc.k[rc.n] = k; rc.v[rc.n] = v; ++rc.n;
}
static int ref_get(unsigned int k){
  int i;
  for(i = 0; i < rc.n; ++i) if(rc.k[i] == k) return(rc.v[i]);
  for(i = 0; i < ro.n; ++i) if(ro.k[i] == k) return(ro.v[i]);
  return(-1);
}
static void ref_trunc(void){ ro = rc; rc.n = 0; }


void rtxdb(void){
  int i, st;
  unsigned int q;

  g.rtxdb_slots = vp_nd_bool() ? 1000 : 0;
  g.rtxdb = NULL;
  VP_ASSERT(e_nbsp_rtxdb_open() == 0, "the data base opens");
  /* any history of records and periods */
  for(i = 0; i < NHIST; ++i){
    unsigned int k = vp_nd_u32();
    int bad = vp_nd_bool();
    puterr = truncerr = 0;
    if(vp_nd_bool()){
      st = e_nbsp_rtxdb_truncate();
      VP_ASSERT((st != 0) == truncerr, "a failure to empty the data base is reported");
      VP_ASSUME(!truncerr);
      ref_trunc();
    }else{
      st = bad ? e_nbsp_rtxdb_put_fail(k) : e_nbsp_rtxdb_put_ok(k);
      VP_ASSERT((st != 0) == puterr, "a failure to record is reported");
      if(g.rtxdb_slots != 0 && !puterr) ref_put(k, bad);
    }
  }
  geterr = 0;
  q = vp_nd_u32();
  st = e_nbsp_rtxdb_get_fstatus(q);
  if(g.rtxdb_slots == 0) VP_ASSERT(st == -2, "a disabled data base says so");
  else if(!geterr){
    VP_ASSERT(st == ref_get(q), "a product is known by its last condition in this period or the previous");
    if(st == 0) VP_REACH("good");
    if(st == 1) VP_REACH("bad");
    if(st == -1 && NHIST > 1 && ro.n == 0 && rc.n == 0) VP_REACH("forgotten");
  }else VP_ASSERT(st == -1 || st == ref_get(q) || ref_get(q) != -1, "what is not known is not invented");
  VP_ASSERT(e_nbsp_rtxdb_close() == 0, "the data base closes");
}
