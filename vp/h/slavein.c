/* the local input fifo: src/slavein/reader.c */
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#include "globals.h"
#include "pctl.h"
#include "packfp.h"
#include "slavet.h"
struct slavein_info_st {
  struct packet_info_st *packetinfo;
  struct pctl_element_st *pce;
  char *buffer;
  int buffer_size;
};
int recv_in_packet(struct slave_element_st *slave);
struct nbsp_globals g;
#define N 12
static union { struct pctl_element_st e; char b[sizeof(struct pctl_element_st) + 24]; } pc;
static struct packet_info_st pinfo;
static struct slavein_info_st info;
static struct slave_element_st sl;
static char area[16384];
static char text[N + 1], numbers;
static long cap; static int nread_, r1, r2, packed, nscan, freed, noroom;
static uint32_t size_;
void *VP_STUB(malloc)(size_t n){ if(noroom) return(NULL); VP_ASSERT(n <= sizeof(area), "the room for the message is limited"); cap = (long)n; return(area); }
void VP_STUB(free)(void *p){ VP_ASSERT(p == area, "the buffer is freed"); ++freed; cap = 0; }
ssize_t VP_STUB(readn)(int fd, void *b, size_t n, unsigned int t, int retry){
  int k;
  VP_ASSERT(fd == 5 && t == 9 && retry == 0, "the fifo is read with its settings");
  if(++nread_ == 1){
    unsigned char *p = b;
    VP_ASSERT(n == 4, "the size comes first");
    p[0] = size_ >> 24; p[1] = (size_ >> 16) & 255; p[2] = (size_ >> 8) & 255; p[3] = size_ & 255;
    return(r1);
  }
  VP_ASSERT(b == area && cap > 0 && n <= (size_t)cap, "the message is read into its buffer");
  VP_ASSERT(n == (size_t)size_ + 1, "the whole message is read");
  if(n > (size_t)cap) return(-1);
  if(n > N + 1) return(-1);
  for(k = 0; k < N + 1; ++k) if(k < (int)n) ((char*)b)[k] = text[k];
  return(r2 < 0 ? r2 : r2 == 1 ? (ssize_t)n - 1 : (ssize_t)n);
}
static unsigned int v0; static int v1, v2, v3, v4;
int VP_STUB(sscanf)(const char *s, const char *f, ...){
  va_list ap;
  VP_ASSERT(s == area, "the numbers are those of the message");
  va_start(ap, f);
  *va_arg(ap, unsigned int*) = v0; *va_arg(ap, int*) = v1; *va_arg(ap, int*) = v2; *va_arg(ap, int*) = v3; *va_arg(ap, int*) = v4;
  va_end(ap);
  return(nscan);
}
static int bl1 = -1, bl2 = -1;
int VP_STUB(nbsfp_pack_fpath)(struct packet_info_st *pi, struct pctl_element_st *e){
  int k, n = (int)size_, slash = -1, j;
  char *fp = pc.b + __builtin_offsetof(struct pctl_element_st, fpath);
  VP_ASSERT(pi == &pinfo && e == &pc.e, "the message is packed");
  ++packed;
  VP_ASSERT(n <= N && text[n] == '\n', "only a whole message is used");
  VP_ASSERT(nscan == 5 && e->seq_number == v0 && e->psh_product_type == v1 && e->psh_product_category == v2 && e->psh_product_code == v3 && e->np_channel_index == v4, "the numbers are those of the message");
  for(k = 0; k < N; ++k) if(k < n && text[k] == ' '){ bl1 = bl2; bl2 = k; }
  VP_ASSERT(bl1 >= 0, "the two names are there");
  for(k = 0; k < N; ++k){
    if(k > bl1 && k < bl2) VP_ASSERT(e->fname[k - bl1 - 1] == text[k], "the name is that of the message");
    if(k > bl2 && k < n) VP_ASSERT(fp[k - bl2 - 1] == text[k], "the path is that of the message");
  }
  j = bl2 - bl1 - 1;
  VP_ASSERT(j <= FNAME_SIZE && e->fname[j] == '\0', "the name is that of the message");
  VP_ASSERT(n - bl2 - 1 < e->fpath_size && fp[n - bl2 - 1] == '\0', "the path is that of the message");
  return(0);
}
void infifo(void){
  int k, st, had;
  sl.info = &info; sl.slave_fd = 5; sl.options.slave_read_timeout_secs = 9;
  info.packetinfo = &pinfo; info.pce = &pc.e;
  pc.e.fpath_size = vp_nd_bool() ? 6 : 20;
  had = vp_nd_range(0, 9000);
  if(had > 0){ info.buffer = area; info.buffer_size = had; cap = had; }
  noroom = vp_nd_bool();
  size_ = vp_nd_u32();
  r1 = vp_nd_range(-2, 4); r2 = vp_nd_range(-2, 2);
  nscan = vp_nd_range(-1, 5);
  v0 = vp_nd_u32(); v1 = vp_nd_int(); v2 = vp_nd_int(); v3 = vp_nd_int(); v4 = vp_nd_int();
  for(k = 0; k < N; ++k) text[k] = "a /\n"[vp_nd_range(0, 3)];
  text[N] = vp_nd_bool() ? '\n' : 'x';
  st = recv_in_packet(&sl);
  VP_ASSERT(info.buffer == NULL || info.buffer_size == (int)cap, "the buffer has the size it is taken to have");
  if(st == 0){ VP_ASSERT(packed == 1 && r1 == 4, "only a whole message is used"); VP_REACH("used"); }
  else VP_ASSERT(!packed, "nothing is used when refused");
  if(r1 == -1) VP_ASSERT(st == -1, "a read error is reported");
  if(r1 == -2) VP_ASSERT(st == -2, "nothing to read is reported");
  if(r1 == 0) VP_ASSERT(st == -3, "a writer that went away is reported");
  if(r1 > 0 && r1 < 4) VP_ASSERT(st == 1, "a short message is reported");
}
