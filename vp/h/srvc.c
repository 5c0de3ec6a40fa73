/* src/serverc.c: what the thread of a client does with a product from its queue */
#include "vp.h"
#include <stdio.h>
#include "globals.h"
#include "libconnth/libconn.h"
#include "appdata.h"
#include "server_priv.h"
#include "nbs1.h"
#include "packfpu.h"
struct nbsp_globals g;
extern void loop(struct conn_element_st *ce);
#define NW 3
static struct conn_element_st ce; static struct thread_info_st ti;
static char pkt[4]; static char ip[] = "a";
static int rcv, wr[NW], nw, back[NW], ns, fd_now, mtx, quit, upd_p, upd_e, whole[NW], proto, blocks, nb, nfree, initst, buildst[12], nbuild, blk[12], okblocks, sent_on[12], nsent, over;
int VP_STUB(pthread_mutex_lock)(pthread_mutex_t *m){ (void)m; return(mtx); }
int VP_STUB(pthread_mutex_unlock)(pthread_mutex_t *m){ (void)m; return(0); }
int VP_STUB(connqueue_rcv)(connqueue_t *q, void **d, uint32_t *n, int t, int *e){ (void)q; (void)e; VP_ASSERT(t == 55, "the queue is read with the setting of the client"); if(rcv == 0){ *d = pkt; *n = 4; } return(rcv); }
int VP_STUB(get_quit_flag)(void){ return(quit); }
int VP_STUB(get_client_protocol_byce)(struct conn_element_st *c){ (void)c; return(proto); }
void VP_STUB(conn_stats_update_packets)(struct conn_stats_st *cs, size_t n){ (void)cs; (void)n; ++upd_p; }
void VP_STUB(conn_stats_update_errors)(struct conn_stats_st *cs){ (void)cs; ++upd_e; }
void VP_STUB(conn_stats_init)(struct conn_stats_st *cs){ (void)cs; }
void VP_STUB(conn_stats_reset)(struct conn_stats_st *cs){ (void)cs; }
time_t VP_STUB(conn_stats_get_ctime)(struct conn_stats_st *cs){ (void)cs; return(0); }
static int result(int fd){
  VP_ASSERT(fd == fd_now && fd != -1, "only the present connection of the client is written");
  VP_ASSERT(nw <= NW, "within the model");
  if(nw >= NW){ fd_now = -1; return(-1); }
  return(wr[nw]);
}
ssize_t VP_STUB(writem)(int fd, void *b, size_t n, unsigned int ms, int retry){
  int r = result(fd);
  VP_ASSERT(b == pkt && n == 4 && ms == 66 && retry == 3, "the whole packet is written with the settings of the client");
  ++nw;
  if(r != 0) fd_now = -1;
  return(r == 0 ? 4 : r == 1 ? 3 : -1);
}
unsigned int VP_STUB(sleep)(unsigned int s){
  VP_ASSERT(s == 9 && fd_now == -1, "a lost client is waited for");
  VP_ASSERT(ns < NW, "within the model");
  if(ti.connection_status == 1 && back[ns]){ fd_now = 20 + ns; ti.client_fd = fd_now; ti.connection_status = 0; }
  ++ns;
  return(0);
}
int VP_STUB(nbsfp_unpack_fpath)(struct packet_info_st *p){ static char f[] = "f"; VP_ASSERT(p->packet == pkt && p->packet_size == 4, "the packet of the queue"); p->fpath = f; p->fname = f; p->seq_number = 1; p->psh_product_type = 2; p->psh_product_category = 3; p->psh_product_code = 4; p->np_channel_index = 5; return(0); }
int VP_STUB(init_nbs_packet_st)(struct nbs1_packet_st *n, char *fp, uint32_t s, int t, int c, int cd, int np, char *fn){
  VP_ASSERT(fp == fn && s == 1 && t == 2 && c == 3 && cd == 4 && np == 5, "the product of the queue");
  if(initst) return(initst);
  n->num_blocks = blocks; n->packet_size = 8; nb = 0; return(0);
}
int VP_STUB(build_nbs_packet)(struct nbs1_packet_st *n){ (void)n; if(buildst[nbuild++]) return(-1); ++nb; return(0); }
int VP_STUB(send_nbs_packet)(int fd, struct nbs1_packet_st *n, int ms, int retry){
  int r;
  (void)n;
  VP_ASSERT(ms == 66 && retry == 3 && nsent < 12, "the settings of the client");
  if(nb == 1){ r = result(fd); ++nw; if(r == 3) r = 0; }
  else r = wr[nw - 1] == 3 ? 2 : 0;
  if(r == 0) ++okblocks;
  blk[nsent] = nb; sent_on[nsent++] = fd;
  if(r != 0) fd_now = -1;
  return(r == 0 ? 0 : r == 1 ? 1 : -1);
}
void VP_STUB(free_nbs_packet_st)(struct nbs1_packet_st *n){ (void)n; ++nfree; }
static void run(int p, int retry, int bl, int w0, int w1, int b0, int b1){
  int k, fails = 0, waits, ok = 0;
  proto = p; blocks = bl;
  ce.ip = ip; ce.fd = fd_now = 10; ce.threadinfo = &ti; ti.client_fd = 10; ti.connection_status = 0; ti.f_thread_created = 1;
  ce.write_timeout_ms = 66; ce.write_timeout_retry = 3; ce.reconnect_wait_sleep_secs = 9; ce.reconnect_wait_sleep_retry = retry; ce.queue_read_timeout_ms = 55;
  wr[0] = w0; wr[1] = w1; wr[2] = 0; back[0] = b0; back[1] = b1; back[2] = 0;
  loop(&ce);
  if(rcv != 0){ VP_ASSERT(nw == 0 && nsent == 0 && !conn_element_get_exit_flag(&ce) && ce.fd == 10, "nothing is sent without a product"); return; }
  for(k = 0; k < NW; ++k) if(k < nw && wr[k] == 0) ++ok;
  VP_ASSERT(ok <= 1, "a product is not sent twice");
  for(k = 0; k < nw; ++k) if(wr[k] != 0) ++fails;
  if(w0 == 0) VP_ASSERT(nw == 1 && ns == 0, "a product is sent once");
  else VP_ASSERT(ns >= 1 || retry == 0, "a lost client is waited for");
  if(ok){
    VP_ASSERT(conn_element_get_exit_flag(&ce) == 0 && ce.fd == fd_now && fd_now != -1, "a client that got the product stays");
    VP_ASSERT(upd_p == (p == PROTOCOL_NBS1 ? okblocks : 1), "what was sent is counted");
    
#if R1 > 0
    if(nw == 2) VP_REACH("sent again after coming back");
#endif
  }else{
    VP_ASSERT(conn_element_get_exit_flag(&ce) == 1 && ti.connection_status == 1, "a client that does not come back is given up");
    VP_ASSERT(ns <= retry + fails, "it is not waited for longer than set");
    VP_REACH("given up");
  }
  if(p == PROTOCOL_NBS1){
    /* each attempt sends the blocks from the first */
    int e = 1, a = 0;
    for(k = 0; k < nsent; ++k){ VP_ASSERT(blk[k] == e, "the blocks are sent in order from the first"); ++e; if(e > bl || (e == 2 && wr[a] != 0 && wr[a] != 3)){ e = 1; ++a; } }
    VP_ASSERT(nfree == nw, "everything is freed");
  }
}
void client(void){
  int c = vp_nd_range(0, 64*(R1 - R0 + 1) + 1), i, w0, w1, b0, b1, r;
  i = 0;
  for(r = R0; r <= R1; ++r) for(w0 = 0; w0 < 4; ++w0) for(w1 = 0; w1 < 4; ++w1) for(b0 = 0; b0 < 2; ++b0) for(b1 = 0; b1 < 2; ++b1){
    if(c == i){ run(PROTO, r, 2, w0, w1, b0, b1); VP_DONE(); }
    ++i;
  }
  if(c == i){ rcv = -1; run(PROTO, R0, 2, 0, 0, 0, 0); VP_DONE(); }
  if(c == i + 1){ rcv = 1; run(PROTO, R0, 2, 0, 0, 0, 0); VP_DONE(); }
}
