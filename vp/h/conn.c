/* src/libconnth: conn.c (the table of connections), poll.c (accepting and removing), ce.c */
#include "vp.h"
#include <stdio.h>
#include <pthread.h>
#include <poll.h>
#include <unistd.h>
#include <sys/socket.h>
#include "libconnth/libconn.h"
#define NE 4
static int cond1 = -1;
static struct conn_table_st ct;
static struct pollfd pf1[1], pf2[2], pf4[4], pf8[8];
static struct conn_element_st ce1[1], ce2[2], ce4[4], ce8[8];
static struct thread_info_st ti[NE + 1];
static struct connqueue_st cqs[NE + 1];
/* strings and descriptors: what is held and by whom */
static char str[2*NE + 4][4]; static int live[2*NE + 4];
static int fdopen_[32];
static int oom1, oom2, nre, ti_live[NE + 1], killed[NE + 1], cq_live[NE + 1], held, nlock, killst, cqst, apps[NE + 1];
int VP_STUB(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a){ (void)m; (void)a; return(0); }
int VP_STUB(pthread_mutex_destroy)(pthread_mutex_t *m){ (void)m; return(0); }
int VP_STUB(pthread_mutex_lock)(pthread_mutex_t *m){ if(m == &ct.mutex){ VP_ASSERT(!held, "the table is locked once"); held = 1; ++nlock; } return(0); }
int VP_STUB(pthread_mutex_unlock)(pthread_mutex_t *m){ if(m == &ct.mutex){ VP_ASSERT(held, "the table was locked"); held = 0; } return(0); }
void *VP_STUB(realloc)(void *p, size_t n){
  int k;
  ++nre;
  if((nre == 1 && oom1) || (nre == 2 && oom2)) return(NULL);
  if(p == pf1){ VP_ASSERT(n == sizeof(pf2), "twice the room"); pf2[0] = pf1[0]; return(pf2); }
  if(p == pf2){
    if(n == sizeof(pf1)){ pf1[0] = pf2[0]; return(pf1); }
    VP_ASSERT(n == sizeof(pf4), "twice the room"); for(k = 0; k < 2; ++k) pf4[k] = pf2[k]; return(pf4); }
  if(p == pf4){
    if(n == sizeof(pf2)){ pf2[0] = pf4[0]; pf2[1] = pf4[1]; return(pf2); }
    VP_ASSERT(n == sizeof(pf8), "twice the room"); for(k = 0; k < 4; ++k) pf8[k] = pf4[k]; return(pf8); }
  if(p == ce1){ VP_ASSERT(n == sizeof(ce2), "twice the room"); ce2[0] = ce1[0]; return(ce2); }
  if(p == ce2){ VP_ASSERT(n == sizeof(ce4), "twice the room"); for(k = 0; k < 2; ++k) ce4[k] = ce2[k]; return(ce4); }
  VP_ASSERT(p == ce4 && n == sizeof(ce8), "twice the room"); for(k = 0; k < 4; ++k) ce8[k] = ce4[k]; return(ce8);
}
static int inpf(const void *d){ int k; for(k = 0; k < NE; ++k) if(d == &pf4[k] || (k < 2 && d == &pf2[k]) || (k < 1 && d == pf1)) return(1); return(0); }
void *VP_STUB(memmove)(void *d, const void *s, size_t n){
  size_t k;
  if(inpf(d)){
    struct pollfd *a = d; const struct pollfd *b = s;
    VP_ASSERT(n % sizeof(*a) == 0, "whole elements are moved");
    for(k = 0; k < NE; ++k) if(k < n/sizeof(*a)) a[k] = b[k];
  }else{
    struct conn_element_st *a = d; const struct conn_element_st *b = s;
    VP_ASSERT(n % sizeof(*a) == 0, "whole elements are moved");
    for(k = 0; k < NE; ++k) if(k < n/sizeof(*a)) a[k] = b[k];
  }
  return(d);
}
static int tabfreed;
void VP_STUB(free)(void *p){
  int k;
  if(p == NULL) return;
  for(k = 0; k < 2*NE + 4; ++k) if(p == str[k]){ VP_ASSERT(live[k] == 1, "a name is freed once"); live[k] = 0; return; }
  for(k = 0; k <= NE; ++k) if(p == &ti[k]){ VP_ASSERT(ti_live[k] == 1, "the data of a thread is freed once"); ti_live[k] = 0; return; }
  ++tabfreed;
}
int VP_STUB(close)(int fd){ VP_ASSERT(fd >= 0 && fd < 32 && fdopen_[fd] == 1, "a connection is closed once"); fdopen_[fd] = 0; return(0); }
int VP_STUB(connqueue_close)(connqueue_t *q, int *e){
  int k;
  for(k = 0; k <= NE; ++k) if(q == &cqs[k]){ VP_ASSERT(cq_live[k] == 1, "a queue is closed once"); VP_ASSERT(killed[k], "the queue is closed when its thread has ended"); cq_live[k] = 0; }
  *e = 0;
  return(cqst);
}
connqueue_t *VP_STUB(connqueue_open)(struct connqueue_param_st *p, int *e){ (void)p; (void)e; return(NULL); }
static int killer(struct conn_element_st *ce){
  int k;
  for(k = 0; k <= NE; ++k) if(ce->threadinfo == &ti[k]){ VP_ASSERT(ti_live[k] && !killed[k], "a thread is ended once"); killed[k] = 1; }
  return(killst);
}
static void freeapp(void *p){ int k = (int)((int*)p - apps); VP_ASSERT(apps[k] == 1, "the data of the application is freed once"); apps[k] = 0; }
void VP_STUB(conn_stats_init)(struct conn_stats_st *cs){ (void)cs; }
void VP_STUB(conn_stats_reset)(struct conn_stats_st *cs){ (void)cs; }
time_t VP_STUB(conn_stats_get_ctime)(struct conn_stats_st *cs){ (void)cs; return(0); }
/* element k of the table: everything of it carries its number */
#ifdef POLL
# define ANY(x) (x)
#else
# define ANY(x) vp_nd_bool()
#endif
static void element(int i, int k, int type){
  struct conn_element_st *ce = &ct.ce[i];
  int cl = (type == CONN_TYPE_CLIENT_NET || type == CONN_TYPE_CLIENT_LOCAL);
  ct.pfd[i].fd = 10 + k; fdopen_[10 + k] = 1; ct.pfd[i].events = POLLIN;
  ce->type = type; ce->pid = 100 + k; ce->fd = 10 + k; ce->ip = NULL; ce->name = NULL; ce->threadinfo = NULL; ce->cq = NULL; ce->appdata = NULL; ce->filterdata = NULL; ce->thkillproc = NULL;
  if(type == CONN_TYPE_CLIENT_NET){
    ce->ip = str[2*k]; live[2*k] = 1; str[2*k][0] = (char)('0' + k); str[2*k][1] = '\0';
    if(ANY(k == 1)){ ce->name = str[2*k + 1]; live[2*k + 1] = 1; }
    ++ct.nclients;
  }
  if(cl && (k == 1 && cond1 >= 0 ? cond1 > 0 : ANY(k == 2))){
    ce->threadinfo = &ti[k]; ti_live[k] = 1; ti[k].f_thread_created = 1; ti[k].f_thread_finished = vp_nd_bool(); ti[k].connection_status = 0; ti[k].client_fd = 10 + k;
    ce->thkillproc = killer; ce->cq = &cqs[k]; cq_live[k] = 1;
    if(k == 1 && cond1 >= 0 ? cond1 == 2 : ANY(0)){ ti[k].connection_status = 1; ct.pfd[i].fd = -1; fdopen_[10 + k] = 0; }
  }
  if(cl && ANY(k == 1)){ ce->appdata = &apps[k]; apps[k] = 1; ce->freedataproc = freeapp; }
}

static struct conn_element_st ce0[NE]; static struct pollfd pf0[NE];
static void table(int n, int nmax, const int *types){
  int k;
  ct.pfd = nmax == 1 ? pf1 : nmax == 2 ? pf2 : pf4; ct.ce = nmax == 1 ? ce1 : nmax == 2 ? ce2 : ce4;
  ct.n = n; ct.nmax = nmax; ct.nclients = 0;
  for(k = 0; k < n; ++k) element(k, k, types[k]);
  for(k = 0; k < n; ++k){ ce0[k] = ct.ce[k]; pf0[k] = ct.pfd[k]; }
}
static void unchanged(int i, int k){
  struct conn_element_st *a = &ct.ce[i], *b = &ce0[k];
  VP_ASSERT(a->type == b->type && a->pid == b->pid && a->fd == b->fd && a->ip == b->ip && a->name == b->name && a->threadinfo == b->threadinfo && a->cq == b->cq && a->appdata == b->appdata && a->thkillproc == b->thkillproc && ct.pfd[i].fd == pf0[k].fd, "the other connections keep everything of theirs");
  VP_ASSERT(a->ip == NULL || live[2*k], "their names are not freed");
  VP_ASSERT(a->threadinfo == NULL || (ti_live[k] && !killed[k] && cq_live[k]), "their threads go on");
  VP_ASSERT(ct.pfd[i].fd == -1 || fdopen_[ct.pfd[i].fd] == 1, "their connections stay open");
}
static void gone(int k){
  int cl = (ce0[k].type == CONN_TYPE_CLIENT_NET || ce0[k].type == CONN_TYPE_CLIENT_LOCAL);
  VP_ASSERT(live[2*k] == 0 && live[2*k + 1] == 0 && ti_live[k] == 0 && cq_live[k] == 0 && apps[k] == 0, "all that belonged to the removed connection is freed");
  VP_ASSERT(ce0[k].threadinfo == NULL || killed[k], "its thread is ended");
  if(cl) VP_ASSERT(fdopen_[10 + k] == 0, "it is closed");
}
static void counts(void){
  int k, m = 0;
  for(k = 0; k < NE + 1; ++k) if(k < ct.n && ct.ce[k].type == CONN_TYPE_CLIENT_NET) ++m;
  VP_ASSERT(ct.nclients == m && conn_table_get_netclients(&ct) == m, "the number of clients is that of the entries in use");
  VP_ASSERT(ct.n <= ct.nmax, "the entries are within the table");
  VP_ASSERT(!held, "the table is not left locked");
}
#ifndef POLL
static void del(int n, int i, const int *types){
  int k, st;
  table(n, n == 3 ? 4 : n, types);
  killst = vp_nd_bool() ? 3 : 0; cqst = vp_nd_bool() ? 5 : 0;
  st = conn_table_del_element(&ct, i);
  VP_ASSERT(ct.n == n - 1, "one entry is removed");
  gone(i);
  for(k = 0; k < n; ++k) if(k != i) unchanged(k < i ? k : k - 1, k);
  if(ce0[i].threadinfo != NULL) VP_ASSERT(st == (killst ? killst : cqst), "an error is reported"); else VP_ASSERT(st == 0, "removed");
  counts();
  if(killst && cqst && st == 3) VP_REACH("both fail");
}
static void add(int n, int nmax, const int *types, int type){
  int k, st, fail;
  char *ip, *name;
  table(n, nmax, types);
  oom1 = vp_nd_bool(); oom2 = vp_nd_bool();
  ip = str[2*NE]; name = vp_nd_bool() ? str[2*NE + 1] : NULL;
  live[2*NE] = live[2*NE + 1] = 1; fdopen_[25] = 1;
  st = conn_table_add_element(&ct, 25, type, 777, ip, name, 1, 2, 3, 4, 5);
  fail = (n == nmax) && (oom1 || oom2);
  VP_ASSERT((st == 0) == !fail, "lack of memory is reported");
  for(k = 0; k < n; ++k) unchanged(k, k);
  VP_ASSERT(ct.n == n + !fail, "one entry is added");
  if(!fail){
    struct conn_element_st *e = &ct.ce[n];
    VP_ASSERT(ct.pfd[n].fd == 25 && ct.pfd[n].events == POLLIN && ct.pfd[n].revents == 0, "the new connection is waited for");
    VP_ASSERT(e->fd == 25 && e->type == type && e->pid == 777 && e->ip == ip && e->name == name && e->write_timeout_ms == 1 && e->write_timeout_retry == 2 && e->reconnect_wait_sleep_secs == 3 && e->reconnect_wait_sleep_retry == 4 && e->queue_read_timeout_ms == 5, "the new entry has what was given");
    VP_ASSERT(e->threadinfo == NULL && e->cq == NULL && e->appdata == NULL && e->filterdata == NULL, "the new entry has nothing of a former one");
    VP_ASSERT(ct.nmax == (n == nmax ? 2*nmax : nmax), "the table grew when full");
  }
  VP_ASSERT(fdopen_[25] && live[2*NE], "the new connection is neither closed nor freed");
  counts();
  if(fail && n == 2) VP_REACH("not enlarged");
  if(!fail && n == 2) VP_REACH("enlarged");
}
static void destroy(int n, const int *types){
  int k;
  table(n, 4, types);
  conn_table_destroy(&ct);
  for(k = 0; k < n; ++k) gone(k);
  VP_ASSERT(tabfreed == 3, "the table is freed");
}
static const int A[4] = {CONN_TYPE_SERVER_NET, CONN_TYPE_CLIENT_NET, CONN_TYPE_CLIENT_LOCAL, CONN_TYPE_CLIENT_NET};
static const int B[4] = {CONN_TYPE_CLIENT_NET, CONN_TYPE_CLIENT_NET, CONN_TYPE_CLIENT_NET, CONN_TYPE_SERVER_NET};
void conntable(void){
  int c = vp_nd_range(0, 10);
  if(c == 0){ del(3, 0, B); VP_DONE(); }
  if(c == 1){ del(3, 1, A); VP_DONE(); }
  if(c == 2){ del(3, 2, A); VP_DONE(); }
  if(c == 3){ del(1, 0, B); VP_DONE(); }
  if(c == 4){ del(3, 0, A); VP_DONE(); }
  if(c == 5){ add(0, 1, A, CONN_TYPE_SERVER_NET); VP_DONE(); }
  if(c == 6){ add(1, 1, A, CONN_TYPE_CLIENT_NET); VP_DONE(); }
  if(c == 7){ add(2, 2, A, CONN_TYPE_CLIENT_NET); VP_DONE(); }
  if(c == 8){ add(3, 4, A, CONN_TYPE_CLIENT_LOCAL); VP_DONE(); }
  if(c == 9){ add(2, 2, B, CONN_TYPE_CLIENT_NET); VP_DONE(); }
  if(c == 10){ destroy(3, A); VP_DONE(); }
}
#else
#ifdef SECOND
# define REACH_FIRST(x)
# define REACH_SECOND(x) VP_REACH(x)
#else
# define REACH_FIRST(x) VP_REACH(x)
# define REACH_SECOND(x)
#endif
/* one turn of the server: requests of connection, hangups and data */
static int pollst, acc, ipfail, allow, sameas, nconn, connat[4], rv[NE], peek[NE], hung[NE], nhup, racc, acclocal;
static const int *ty;
static int nel;
int VP_STUB(poll)(struct pollfd *p, nfds_t n, int t){
  int k;
  VP_ASSERT(p == ct.pfd && n == (nfds_t)nel && t == 0, "all the entries are looked at, without waiting");
  for(k = 0; k < NE; ++k) if(k < nel){ VP_ASSERT(p[k].events == POLLIN, "requests and data are waited for"); p[k].revents = (short)rv[k]; }
  return(pollst);
}
int VP_STUB(tcp_server_accept_conn)(int s, struct client_options_st *o, struct sockaddr *a, socklen_t *l){
  (void)o; (void)a; (void)l;
  VP_ASSERT(s == 10, "the request is taken from the server");
  ++racc;
  if(acc < 0) return(acc);
  fdopen_[25] = 1;
  return(25);
}
int VP_STUB(server_accept_conn)(int fd, pid_t *p, struct client_options_st *o){ (void)fd; (void)p; (void)o; return(-1); }
char *VP_STUB(get_peer_ip)(int fd){
  VP_ASSERT(fd == 25, "the address is that of the new client");
  if(ipfail) return(NULL);
  live[2*NE] = 1; str[2*NE][0] = (char)('0' + sameas); str[2*NE][1] = '\0';
  return(str[2*NE]);
}
static int noname;
char *VP_STUB(get_peer_name)(int fd){ VP_ASSERT(fd == 25, "the name is that of the new client"); if(noname) return(NULL); live[2*NE + 1] = 1; return(str[2*NE + 1]); }
ssize_t VP_STUB(recvfrom)(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l){
  (void)b; (void)n; (void)a; (void)l;
  VP_ASSERT(fl == MSG_PEEK, "nothing is taken from a client to see whether it is there");
  VP_ASSERT(fd >= 10 && fd < 10 + NE && fdopen_[fd] == 1, "an open connection is looked at");
  return(peek[fd - 10]);
}
static int access_(int fd, char *ip, char *name){ (void)name; VP_ASSERT(fd == 25 && ip == str[2*NE], "access is asked for the new client"); return(allow); }
static int handler(struct conn_table_st *t, int i){
  VP_ASSERT(t == &ct && i < ct.n && nconn < 4 && ct.ce[i].pid >= 100 && ct.ce[i].pid < 100 + NE, "data of a client in the table is handled");
  connat[nconn++] = ct.ce[i].pid - 100;
  return(0);
}
static void hangup_(struct conn_table_st *t, int i, int c){ (void)t; (void)c; VP_ASSERT(i < ct.n && nhup < 4, "a client in the table hung up"); ++nhup; hung[ct.ce[i].pid - 100] = 1; }
static int where(int pid){ int k, r = -1; for(k = 0; k < NE + 1; ++k) if(k < ct.n && ct.ce[k].pid == pid){ VP_ASSERT(r == -1, "an entry is once in the table"); r = k; } return(r); }
static struct client_options_st opts = {1, 1, 1, 2, 3, 4, 5};
static void turn(int n, const int *types, int max, int reqd, int same, int cond, int what1, int what2, int acc_, int ipf, int allow_){
  int k, st, req, restored = 0, added = 0, replaced = -1, limit, skip = -1, s0, n0, j;
  cond1 = cond;
  table(n, 4, types);
  nel = n; ty = types; ct.connproc = handler; ct.hangupproc = hangup_; ct.accessproc = allow_ < 2 ? access_ : NULL;
  ct.nclientsmax = max; 
  if(max >= 0) VP_ASSUME(ct.nclients <= max);
  pollst = reqd == 2 ? vp_nd_range(-1, 0) : 1; acc = acc_; ipfail = ipf; noname = (what2 & 1); allow = allow_;
  sameas = same;    /* 3: of nobody in the table */
  for(k = 0; k < n; ++k){
    int wh = k == 1 ? what1 : what2;
    peek[k] = wh == 1 ? 1 : -1 + wh/3; /* data; -1: reset; 0: closed */
    if(k == 0) rv[k] = reqd ? POLLIN : 0;
    else{ if(wh == 4 && k == 1) rv[k] = POLLHUP; else rv[k] = wh == 0 ? 0 : wh == 1 || wh == 2 || wh == 3 ? POLLIN : POLLIN | POLLERR;
      if(rv[k] != 0) VP_ASSUME(ct.pfd[k].fd != -1); }
  }
  n0 = ct.nclients;
  for(k = 1; k < n; ++k) if(ce0[k].type == CONN_TYPE_CLIENT_NET && sameas == k){ if(ce0[k].threadinfo != NULL && ti[k].connection_status == 1) restored = k; else replaced = k; }
  s0 = (restored || replaced >= 0);
  st = poll_loop_nowait(&ct, &opts);
  counts();
  VP_ASSERT(ct.nclientsmax < 0 || ct.nclients <= ct.nclientsmax, "there are never more clients than allowed");
  req = pollst == 1 && (rv[0] & POLLIN);
  if(pollst != 1){ VP_ASSERT(st == pollst && ct.n == n && racc == 0, "nothing is done without requests"); return; }
  VP_ASSERT(racc == (req != 0), "one request is taken");
  if(!req || acc < 0 || ipfail){
    restored = 0; replaced = -1;
    if(req) VP_ASSERT(fdopen_[25] == 0, "a connection which cannot be used is closed");
  }else if(!restored){
    limit = max >= 0 && n0 - (replaced >= 0) == max;
    added = (ct.accessproc == NULL || allow) && !limit;
    VP_ASSERT((where(-1) >= 0) == added, "a client is added when it is allowed and there is room");
    VP_ASSERT(fdopen_[25] == added && live[2*NE] == added && (live[2*NE + 1] == added || noname), "a client which is not added is closed and nothing of it is kept");
    if(added){ j = where(-1); VP_ASSERT(ct.pfd[j].fd == 25 && ct.ce[j].ip == str[2*NE] && ct.ce[j].name == (noname ? NULL : str[2*NE + 1]) && ct.ce[j].type == CONN_TYPE_CLIENT_NET && ct.ce[j].write_timeout_ms == 1 && ct.ce[j].write_timeout_retry == 2 && ct.ce[j].reconnect_wait_sleep_secs == 3 && ct.ce[j].reconnect_wait_sleep_retry == 4 && ct.ce[j].queue_read_timeout_ms == 5, "the new client has its own entry"); REACH_FIRST("added"); }
    if(limit) REACH_FIRST("too many");
  }else{
    j = where(100 + restored);
    VP_ASSERT(j >= 0 && ct.pfd[j].fd == 25 && ti[restored].client_fd == 25 && ti[restored].connection_status == 0 && where(-1) == -1, "the connection of a client that comes back is restored");
    VP_ASSERT(live[2*NE] == 0 && live[2*NE + 1] == 0 && fdopen_[25] == 1, "nothing else is kept of it");
    REACH_SECOND("restored");
  }
  if(replaced >= 0){ VP_ASSERT(where(100 + replaced) == -1, "the former connection of the client is removed"); gone(replaced); REACH_SECOND("replaced"); }
  /* the rest only if the request did not end the turn */
  (void)skip; (void)s0;
  {
    int ended = req && (acc < 0 || ipfail || (!restored && !added));
    for(k = 0; k < n; ++k) if(k != replaced && k != restored){
      int cl = ce0[k].type == CONN_TYPE_CLIENT_NET || ce0[k].type == CONN_TYPE_CLIENT_LOCAL;
      int hup = cl && ((rv[k] & (POLLHUP|POLLERR)) || ((rv[k] & POLLIN) && peek[k] <= 0));
      j = where(100 + k);
      if(hung[k]){ VP_ASSERT(hup && j == -1, "only who hung up is removed"); gone(k); }
      else{ VP_ASSERT(j >= 0, "everybody else stays in the table"); unchanged(j, k); }
      /* who follows a removed entry is served in the next turn */
      if(!ended && hup && (k == 1 || !hung[1])) VP_ASSERT(hung[k], "who hung up is removed");
    }
    if(ended) VP_ASSERT(nconn == 0 && nhup == 0, "nothing more is done");
    for(k = 0; k < nconn; ++k){ int w = connat[k]; VP_ASSERT((rv[w] & POLLIN) && peek[w] > 0 && !hung[w], "data is handled of those who sent it"); if(k > 0) VP_ASSERT(connat[k-1] != w, "and once"); }
    if(!ended && replaced < 0 && nhup == 0) for(k = 1; k < n; ++k) if((rv[k] & POLLIN) && k != restored) VP_ASSERT(nconn > 0 && (connat[0] == k || (nconn > 1 && connat[1] == k)), "all who sent data are served");
    if(nhup == 1 && n == 3 && nconn == 0) REACH_FIRST("hung up");
  }
}
static const int A[4] = {CONN_TYPE_SERVER_NET, CONN_TYPE_CLIENT_NET, CONN_TYPE_CLIENT_NET, 0};
static void one(int r, int a, int b){
  switch(r){
  case 0: turn(3, A, 2, 0, 3, a ? 1 : -1, a, b, 0, 0, 1); break;   /* no request */
  case 1: turn(3, A, -1, 1, 3, a ? 1 : -1, a, b, 0, 0, 1); break;  /* a new client */
  case 2: turn(3, A, 3, 1, 3, a ? 1 : -1, a, b, 0, 0, 2); break;   /* the last one allowed */
  case 3: turn(3, A, 2, 1, 3, -1, a, b, 0, 0, 2); break;           /* one too many */
  case 4: if(a == 0 || a == 1) turn(3, A, 2, 1, 1, 2, 0, b, 0, 0, a); break; /* coming back */
  case 5: turn(3, A, 2, 1, 1, 1, a, b, 0, 0, 1); break;            /* connecting again */
  case 6: turn(3, A, 2, 1, 1, 0, a, b, 0, 0, 0); break;            /* connecting again, now refused */
  case 7: turn(3, A, 5, 1, 3, -1, a, b, 0, 0, 0); break;           /* refused */
  case 8: if(a <= 3) turn(3, A, 5, 1, 3, -1, 0, b, a == 0 ? 0 : a == 1 ? -1 : -2, a == 0, 1); break; /* the request fails */
  case 9: if(a == 0) turn(3, A, 5, 2, 3, -1, 0, 0, 0, 0, 1); break; /* nothing arrives */
  }
}
void connpoll(void){
  int r = vp_nd_range(0, 9), a = vp_nd_range(0, 4), b = vp_nd_range(0, 4), i, j, k;
  for(i = 0; i < 10; ++i) if(r == i ONLY)
    for(j = 0; j < 5; ++j) if(a == j)
      for(k = 0; k < 5; ++k) if(b == k){ one(i, j, k); VP_DONE(); }
}
#endif
