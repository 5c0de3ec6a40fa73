/* src/serverm.c and appdata.c: identification of the clients and distribution to their queues */
#include "vp.h"
#include <stdio.h>
#include <time.h>
#include "globals.h"
#include "libconnth/libconn.h"
#include "appdata.h"
#include "emwin.h"
#include "packfpu.h"
#include "sfilter.h"
#include "pfilter.h"
#include "server_priv.h"
struct nbsp_globals g;
extern int handle_client(struct conn_table_st *ct, int i);
extern void process_unidentified_connections(void);
extern int server_send_client_queues(struct packet_info_st *p);
extern struct sfilterp_st *gnetfilterp;
extern struct pfilter_st *gemwinfilterp;
#define NE 3
static struct conn_table_st ct;
static struct pollfd pfds[NE];
static struct conn_element_st ces[NE];
static struct thread_info_st ti[NE];
static char ip[NE][2] = {"s", "a", "b"};
static int killed[NE], nkilled, oom;
struct app { int protocol; time_t last; };
static struct app apps[NE]; static int napps;
void *VP_STUB(malloc)(size_t n){ if(oom) return(NULL); VP_ASSERT(n <= sizeof(struct app) && napps < NE, "within the model"); return(&apps[napps++]); }
void VP_STUB(free)(void *p){ (void)p; }
int VP_STUB(pthread_mutex_lock)(pthread_mutex_t *m){ (void)m; return(0); }
int VP_STUB(pthread_mutex_unlock)(pthread_mutex_t *m){ (void)m; return(0); }
int VP_STUB(poll_kill_client_connection)(struct conn_table_st *t, int i){
  int k;
  VP_ASSERT(t == &ct && i >= 1 && i < ct.n, "a client is dropped");
  for(k = 1; k < NE; ++k) if(ct.ce[i].ip == ip[k]) killed[k] = 1;
  ++nkilled;
  for(k = 0; k < NE - 1; ++k) if(k >= i){ ct.ce[k] = ct.ce[k + 1]; ct.pfd[k] = ct.pfd[k + 1]; }
  --ct.n;
  return(0);
}
static time_t now_, ctime_[NE];
time_t VP_STUB(time)(time_t *t){ if(t) *t = now_; return(now_); }
time_t VP_STUB(conn_stats_get_ctime)(struct conn_stats_st *cs){ return(cs->ctime); }
static void table(void){
  int k;
  ct.pfd = pfds; ct.ce = ces; ct.n = NE; ct.nmax = NE; ct.nclients = NE - 1;
  for(k = 0; k < NE; ++k){ ces[k].type = k ? CONN_TYPE_CLIENT_NET : CONN_TYPE_SERVER_NET; ces[k].ip = ip[k]; ces[k].pid = -1; pfds[k].fd = ces[k].fd = 10 + k; }
  g.ct = &ct;
}
static void have(int k, int p){ struct app *a = &apps[napps++]; a->protocol = p; a->last = 0; ces[k].appdata = a; }
#ifdef IDENT
static unsigned char msg[8]; static ssize_t rn;
ssize_t VP_STUB(read1)(int fd, void *b, size_t n, unsigned int t, int retry){
  int k;
  VP_ASSERT(fd == 12 && t == 0 && retry == 0 && n <= 512, "the message of the client is read without waiting");
  VP_ASSUME(rn <= (ssize_t)n);
  for(k = 0; k < 8; ++k) if(k < rn) ((unsigned char*)b)[k] = msg[k];
  ((unsigned char*)b)[n - 1] = 'z';
  return(rn);
}
static int is(const char *s, int n){ int k; if(rn != n) return(0); for(k = 0; k < n; ++k) if(msg[k] != (unsigned char)s[k]) return(0); return(1); }
void ident(void){
  int before = vp_nd_bool(), st, exp_, k;
  table();
  g.f_server_thread_created = 1; g.servertype = vp_nd_range(0, 7);
  for(k = 0; k < 8; ++k) msg[k] = vp_nd_u8();
  rn = vp_nd_range(-1, 512);
  oom = vp_nd_bool();
  have(1, PROTOCOL_NBS1);
  if(before) have(2, PROTOCOL_NBS2);
  st = handle_client(&ct, 2);
  VP_ASSERT(st == 0, "the server goes on");
  VP_ASSERT(!killed[1] && get_client_protocol(&ct, 1) == PROTOCOL_NBS1, "the other clients are not affected");
  if(rn <= 0){ VP_ASSERT(killed[2] && nkilled == 1, "a client that is gone is dropped"); return; }
  if(before){ VP_ASSERT(nkilled == 0 && get_client_protocol(&ct, 2) == PROTOCOL_NBS2, "the protocol is chosen once"); return; }
  exp_ = is("NBS1", 4) ? PROTOCOL_NBS1 : is("NBS2", 4) ? PROTOCOL_NBS2 : PROTOCOL_EMWIN;
  if(oom){ VP_ASSERT(killed[2] && nkilled == 1, "without memory the client is dropped"); VP_REACH("no memory"); return; }
  VP_ASSERT((nkilled == 1 && killed[2]) == ((g.servertype & exp_) == 0) && nkilled <= 1, "only a protocol which is served is accepted");
  if(nkilled == 0) VP_ASSERT(get_client_protocol(&ct, 2) == exp_ && get_client_protocol_byce(&ces[2]) == exp_, "the protocol is the one named");
  if(nkilled == 0 && exp_ == PROTOCOL_NBS2) VP_REACH("nbs2");
  if(nkilled == 0 && exp_ == PROTOCOL_EMWIN && !is("EMWIN", 5)) VP_REACH("default");
}
void silent(void){
  int k, known[NE], late[NE];
  table();
  g.f_server_thread_created = 1; g.servertype = vp_nd_range(0, 7); g.server_clientid_timeout_secs = vp_nd_range(0, 1000);
  now_ = vp_nd_range(0, 100000); oom = vp_nd_bool();
  for(k = 1; k < NE; ++k){
    known[k] = vp_nd_bool(); if(known[k]) have(k, PROTOCOL_NBS2);
    ces[k].cs.ctime = vp_nd_range(0, 100000);
    late[k] = !known[k] && now_ > ces[k].cs.ctime + g.server_clientid_timeout_secs;
  }
  process_unidentified_connections();
  for(k = 1; k < NE; ++k){
    int exp_ = late[k] && (oom || (g.servertype & PROTOCOL_EMWIN) == 0);
    if(k == 1 || !killed[1]) VP_ASSERT(killed[k] == exp_, "a client silent for too long is an emwin client, or dropped when those are not served");
    else VP_ASSERT(!killed[k] || exp_, "only such clients are dropped");
    if(!killed[k]){
      int j = (k == 2 && killed[1]) ? 1 : k, p = get_client_protocol(&ct, j);
      VP_ASSERT(ct.ce[j].ip == ip[k], "the clients stay in order");
      if(known[k]) VP_ASSERT(p == PROTOCOL_NBS2, "a client that identified itself stays as it is");
      else if(!late[k]) VP_ASSERT(p == PROTOCOL_UNKNOWN, "there is time to identify oneself");
      else if(k == 1 || !killed[1]) VP_ASSERT(p == PROTOCOL_EMWIN, "a silent client is an emwin client");
      if(late[k] && p == PROTOCOL_EMWIN) VP_REACH("silent");
    }
  }
}
#else
/* distribution */
static char pkt[4], nm[] = "n", pth[] = "/p";
static struct packet_info_st pi;
static int proto[NE], running[NE], finished[NE], allow[NE], netf, netst, nexec, sent[NE], sst[NE], emst, nwrite, reply_[2], phase;
static struct connqueue_st cqs[NE];
static struct sfilterp_st nf; static struct pfilter_st ef;
int VP_STUB(exec_net_filter)(struct sfilterp_st *s, struct conn_table_st *t){ VP_ASSERT(s == &nf && t == &ct, "the filter is asked"); ++nexec; return(netst); }
int VP_STUB(allow_filter_get_flag)(struct conn_element_st *ce){ return(allow[ce->ip == ip[1] ? 1 : 2]); }
int VP_STUB(emwin_regex_match)(char *n){ VP_ASSERT(n == nm, "the product is asked for"); ++nwrite; return(emst); }
int VP_STUB(emwin_queue_info_get_size)(void){ return((int)sizeof(struct emwin_queue_info_st)); }
int VP_STUB(fprintf)(FILE *f, const char *fmt, ...){ (void)f; (void)fmt; return(5); }
int VP_STUB(pfilter_flush)(struct pfilter_st *p){ (void)p; return(0); }
int VP_STUB(pfilter_read)(struct pfilter_st *p, void *b, size_t n){
  unsigned char *c = b;
  (void)p;
  switch(phase++){
  case 0: VP_ASSERT(n == 1, "the status first"); c[0] = 0; break;
  case 1: VP_ASSERT(n == 4, "then the sizes"); c[0] = 0; c[1] = 2; c[2] = 0; c[3] = 1; break;
  case 2: VP_ASSERT(n == 2, "the path"); c[0] = 'p'; c[1] = 'q'; break;
  default: VP_ASSERT(n == 1 && phase == 4, "the name"); c[0] = 'e'; break;
  }
  return(0);
}
int VP_STUB(connqueue_snd)(connqueue_t *q, void *d, uint32_t n, int *e){
  int k;
  for(k = 1; k < NE; ++k) if(q == &cqs[k]){
    ++sent[k];
    VP_ASSERT(running[k] && !finished[k], "only clients whose thread is running are given products");
    VP_ASSERT(!netf || allow[k], "a client is not given what is not allowed for it");
    if(proto[k] == PROTOCOL_EMWIN){
      struct emwin_queue_info_st *i = d;
      VP_ASSERT(n == sizeof(*i) && emst == 0, "an emwin client is given what the emwin filter passed");
      VP_ASSERT(i->fpathout[0] == 'p' && i->fpathout[1] == 'q' && i->fpathout[2] == 0 && i->emwinfname[0] == 'e' && i->emwinfname[1] == 0, "with the path and name of the filter");
    }else{
      VP_ASSERT(proto[k] == PROTOCOL_NBS1 || proto[k] == PROTOCOL_NBS2, "the other protocols");
      VP_ASSERT(d == pkt && n == 4, "are given the whole packet");
    }
    if(sst[k] == -1) *e = 7;
    return(sst[k]);
  }
  VP_ASSERT(0, "each client has its own queue");
  return(0);
}
static void run(int p1, int p2){
  int k, em = 0, n;
  table();
  proto[1] = p1; proto[2] = p2;
  g.f_emwinserver_enabled = 1; g.emwinfilter_always = vp_nd_bool(); g.server_clientqlimit_logperiod_secs = vp_nd_range(0, 100);
  netf = vp_nd_bool(); netst = netf && vp_nd_bool(); g.netfilter_enable = netf; gnetfilterp = netf ? &nf : NULL;
  gemwinfilterp = &ef; emst = vp_nd_range(-1, 1); now_ = vp_nd_range(0, 100000);
  for(k = 1; k < NE; ++k){
    have(k, proto[k]); apps[k - 1].last = ctime_[k] = vp_nd_range(0, 100000);
    running[k] = vp_nd_bool(); finished[k] = vp_nd_bool(); allow[k] = vp_nd_bool(); sst[k] = vp_nd_range(-1, 2);
    if(running[k]){ ces[k].threadinfo = &ti[k]; ti[k].f_thread_created = 1; ti[k].f_thread_finished = finished[k]; }
    ces[k].cq = &cqs[k];
    if(proto[k] == PROTOCOL_EMWIN && running[k] && !finished[k]) em = 1;
  }
  pi.packet = pkt; pi.packet_size = 4; pi.fname = nm; pi.fpath = pth;
  n = server_send_client_queues(&pi);
  VP_ASSERT(n == 0, "the server goes on");
  VP_ASSERT((nwrite == 1) == (em || g.emwinfilter_always) && nwrite <= 1, "the emwin filter is asked once when it is needed");
  VP_ASSERT(nexec == netf, "the filter of the clients is asked once");
  for(k = 1; k < NE; ++k){
    int want = running[k] && !finished[k] && !(netf && netst) && (!netf || allow[k]) && (proto[k] != PROTOCOL_EMWIN || emst == 0) && proto[k] != PROTOCOL_UNKNOWN;
    VP_ASSERT(sent[k] == want, "each client is given the products meant for it, once, and nobody else's fate matters");
    VP_ASSERT(get_client_qlimit_log_last(&ces[k]) == (want && sst[k] > 0 && now_ > ctime_[k] + g.server_clientqlimit_logperiod_secs ? now_ : ctime_[k]), "the limits reported of a client are its own");
  }
  if(sent[1] && sent[2] && sst[1] == 2) VP_REACH("the queue of the first is full");
  if(!sent[1] && sent[2]) VP_REACH("only the second");
}
void distribute(void){
  int c = vp_nd_range(0, 4);
  if(c == 0){ run(PROTOCOL_NBS1, PROTOCOL_EMWIN); VP_DONE(); }
  if(c == 1){ run(PROTOCOL_EMWIN, PROTOCOL_NBS2); VP_DONE(); }
  if(c == 2){ run(PROTOCOL_EMWIN, PROTOCOL_EMWIN); VP_DONE(); }
  if(c == 3){ run(PROTOCOL_NBS2, PROTOCOL_NBS1); VP_DONE(); }
  if(c == 4){ run(PROTOCOL_UNKNOWN, PROTOCOL_NBS2); VP_DONE(); }
}
#endif
