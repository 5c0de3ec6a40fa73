/* relay packets: src/pack.c packfp.c packfpu.c nbs1s.c nbs1r.c util.c */
#include "vp.h"
#include <sys/stat.h>
#include "globals.h"
#include "pctl.h"
#include "packfp.h"
#include "packfpu.h"
#include "util.h"
#include "nbs1.h"
#include "spooltype.h"
struct nbsp_globals g;
static void text(char *p, int n){
  int k;
  for(k = 0; k < n; ++k){ uint8_t c = vp_nd_u8(); VP_ASSUME(c != 0); p[k] = (char)c; }
  p[n] = '\0';
}
#ifdef FP
#define FPS 5			/* room for the path */
#define DSZ (8 + FNAME_SIZE + 1 + FPS)
static union { struct pctl_element_st e; char b[sizeof(struct pctl_element_st) + 16]; } pc;
static struct packet_info_st a, b;
static unsigned char pkt[NBS_ENVELOPE_SIZE + DSZ];
static char fn[FNAME_SIZE + 1], fp[FPS];
/* pack, then unpack somewhere else */
static void round_(int nf, int np){
  struct pctl_element_st *e = &pc.e;
  int k, ty = vp_nd_u8(), ca = vp_nd_u8(), co = vp_nd_u8(), ch = vp_nd_range(0, 3), st;
  unsigned int seq = vp_nd_u32();
  text(fn, nf); text(fp, np);
  e->fpath_size = FPS;
  e->seq_number = seq; e->psh_product_type = ty; e->psh_product_category = ca; e->psh_product_code = co; e->np_channel_index = ch;
  for(k = 0; k <= nf; ++k) e->fname[k] = fn[k];
  for(k = 0; k <= np; ++k) pc.b[__builtin_offsetof(struct pctl_element_st, fpath) + k] = fp[k];
  a.packet = pkt; a.packet_size = sizeof(pkt);
  st = nbsfp_pack_fpath(&a, e);
  VP_ASSERT(st == 0, "a product can always be packed");
  VP_ASSERT(pkt[0] == 0 && pkt[1] == 0 && pkt[2] == 0 && pkt[3] == PACKID_FPATH, "the envelope has the identifier");
  VP_ASSERT(pkt[4] == 0 && pkt[5] == 0 && pkt[6] == 0 && pkt[7] == DSZ, "the envelope has the size of the data");
  VP_ASSERT(pkt[12] == (seq >> 24) && pkt[13] == ((seq >> 16) & 255) && pkt[14] == ((seq >> 8) & 255) && pkt[15] == (seq & 255), "the number is stored with the most significant byte first");
  VP_ASSERT(a.fname == (char*)&pkt[20] && a.fpath == (char*)&pkt[20 + FNAME_SIZE + 1], "the names of a packed product can be used");
  b.packet = pkt; b.packet_size = sizeof(pkt);
  st = nbsfp_unpack_fpath(&b);
  VP_ASSERT(st == 0, "what was packed can be unpacked");
  VP_ASSERT(b.seq_number == seq && b.psh_product_type == ty && b.psh_product_category == ca && b.psh_product_code == co && b.np_channel_index == ch, "the fields come back");
  for(k = 0; k <= nf; ++k) VP_ASSERT(b.fname[k] == fn[k], "the name comes back");
  for(k = 0; k <= np; ++k) VP_ASSERT(b.fpath[k] == fp[k], "the path comes back");
  if(nf == FNAME_SIZE && ty > 127) VP_REACH("longest");
}
void fp_roundtrip(void){
  switch(vp_nd_range(0, 3)){
  case 0: round_(FNAME_SIZE, FPS - 1); break;
  case 1: round_(0, 0); break;
  case 2: round_(11, 2); break;
  default: round_(17, 4); break;
  }
}
/* any packet, of any declared size: it is used only if it is consistent */
void fp_unpack(void){
  static struct { unsigned char p[NBS_ENVELOPE_SIZE + DSZ]; } big;
  int room = vp_nd_bool() ? (int)sizeof(big.p) : (int)sizeof(big.p) - 3, st, k, nul = 0;
  uint32_t ds, cs, sum = 0;
  vp_nd_bytes(&big, sizeof(big));
  b.packet = big.p; b.packet_size = room;
  ds = unpack_uint32(big.p, 4); cs = unpack_uint32(big.p, 8);
  st = nbsfp_unpack_fpath(&b);
  if(st != 0) return;
  VP_ASSERT(unpack_uint32(big.p, 0) == PACKID_FPATH, "only a packet of its kind is used");
  VP_ASSERT(ds <= (uint32_t)room - NBS_ENVELOPE_SIZE, "only a packet that is all there is used");
  VP_ASSERT(ds >= 8 + FNAME_SIZE + 1 + 1, "only a packet with all the fields is used");
  for(k = 0; k < DSZ; ++k) if(k < (int)ds) sum += big.p[NBS_ENVELOPE_SIZE + k];
  VP_ASSERT(sum == cs, "only a packet with a right checksum is used");
  VP_ASSERT(b.fname == (char*)&big.p[20] && b.fpath == (char*)&big.p[20 + FNAME_SIZE + 1], "the names are those in the packet");
  for(k = 8; k < 8 + FNAME_SIZE + 1; ++k) if(big.p[NBS_ENVELOPE_SIZE + k] == 0) nul |= 1;
  for(k = 8 + FNAME_SIZE + 1; k < DSZ; ++k) if(k < (int)ds && big.p[NBS_ENVELOPE_SIZE + k] == 0) nul |= 2;
  VP_ASSERT(nul == 3, "the names end within the packet");
  if(ds == 8 + FNAME_SIZE + 1 + 2) VP_REACH("short path");
}
/* the same from a connection that gives anything */
static unsigned char *base; static int room_, nread_, kind;
static ssize_t got[2];
ssize_t VP_STUB(readn)(int fd, void *p, size_t n, unsigned int t, int retry){
  int k, i = nread_++;
  VP_ASSERT(fd == 5 && t == 9 && retry == 1, "the connection is read with its settings");
  VP_ASSERT(i < 2 && (unsigned char*)p >= base && n <= (size_t)room_ && (size_t)((unsigned char*)p - base) <= (size_t)room_ - n, "nothing is read beyond the packet");
  if(i >= 2 || n > (size_t)room_) return(-1);
  got[i] = vp_nd_range(-2, room_);
  VP_ASSUME(got[i] <= (ssize_t)n);
  for(k = 0; k < room_; ++k) if(k < (int)n && k < got[i]) ((unsigned char*)p)[k] = vp_nd_u8();
  return(got[i]);
}
void fp_recv(void){
  static unsigned char buf[NBS_ENVELOPE_SIZE + DSZ];
  static struct packet_info_st in;
  int st;
  uint32_t ds;
  base = buf; room_ = sizeof(buf);
  in.packet = buf; in.packet_size = sizeof(buf);
  st = recv_fp_packet(5, &in, 9, 1);
  if(got[0] == -1) VP_ASSERT(st == -1, "a read error is reported");
  else if(got[0] != NBS_ENVELOPE_SIZE) VP_ASSERT(st == 1 && nread_ == 1, "a short packet is reported");
  if(nread_ == 2 && got[1] == -1) VP_ASSERT(st == -1, "a read error is reported");
  if(st != 0) return;
  ds = unpack_uint32(buf, 4);
  VP_ASSERT(nread_ == 2 && got[1] == (ssize_t)ds, "only a packet that is all there is used");
  VP_ASSERT(unpack_uint32(buf, 0) == PACKID_FPATH, "only a packet of its kind is used");
  VP_ASSERT(ds >= 8 + FNAME_SIZE + 1 + 1, "only a packet with all the fields is used");
  VP_ASSERT(in.fpath == (char*)&buf[20 + FNAME_SIZE + 1], "the names are those in the packet");
  VP_REACH("received");
}
#else
/* ---- contents ---- */
static struct nbs1_packet_st s, r;
static char path[] = "/sp/kwbc/abcd_efghij.271200_4294967295";
static long fsize; static int pos, kind, opened, closed, rerr, nread_;
static unsigned char data[64];
static unsigned char wire[sizeof(s.packet)];
static int wn, wp;
int VP_STUB(spooltype_fsspool)(void){ return(kind == 0); }
int VP_STUB(spooltype_mspool)(void){ return(kind == 1); }
int VP_STUB(spooltype_cspool)(void){ return(kind == 2); }
int VP_STUB(stat)(const char *f, struct stat *sb){ VP_ASSERT(f == path, "the file is that of the product"); sb->st_size = fsize; return(0); }
static int op(char *f){ VP_ASSERT(f == path, "the file is that of the product"); ++opened; return(7 + kind); }
int VP_STUB(open)(const char *f, int fl, ...){ (void)fl; VP_ASSERT(kind == 0, "the spool is the configured one"); return(op((char*)f)); }
int VP_STUB(nbsp_mspoolbdb_open)(char *f){ VP_ASSERT(kind == 1, "the spool is the configured one"); return(op(f)); }
int VP_STUB(nbsp_cspoolbdb_open)(char *f){ VP_ASSERT(kind == 2, "the spool is the configured one"); return(op(f)); }
size_t VP_STUB(nbsp_mspoolbdb_datasize)(int fd){ (void)fd; return((size_t)fsize); }
size_t VP_STUB(nbsp_cspoolbdb_datasize)(int fd){ (void)fd; return((size_t)fsize); }
static int rd(int k, int fd, void *b, size_t n){
  int i, m = (int)n;
  VP_ASSERT(kind == k && fd == 7 + k && n <= NBS1_BLOCK_SIZE, "the product is read a block at a time");
  if(rerr == ++nread_) return(-1);
  if(pos + m > fsize) m = (int)fsize - pos;
  for(i = 0; i < NBS1_BLOCK_SIZE; ++i) if(i < m) ((unsigned char*)b)[i] = data[pos + i];
  pos += m;
  return(m);
}
ssize_t VP_STUB(read)(int fd, void *b, size_t n){ return(rd(0, fd, b, n)); }
size_t VP_STUB(nbsp_mspoolbdb_read)(int fd, void *b, size_t n){ return(rd(1, fd, b, n)); }
size_t VP_STUB(nbsp_cspoolbdb_read)(int fd, void *b, size_t n){ return(rd(2, fd, b, n)); }
static int cl(int k, int fd){ VP_ASSERT(kind == k && fd == 7 + k, "what was opened is closed"); ++closed; return(0); }
int VP_STUB(close)(int fd){ return(cl(0, fd)); }
int VP_STUB(nbsp_mspoolbdb_close)(int fd){ return(cl(1, fd)); }
int VP_STUB(nbsp_cspoolbdb_close)(int fd){ return(cl(2, fd)); }
ssize_t VP_STUB(writem)(int fd, void *b, size_t n, unsigned int ms, int retry){
  int k;
  VP_ASSERT(fd == 3 && ms == 77 && retry == 2 && b == s.packet, "the packet is written with the settings of the client");
  VP_ASSERT(n <= sizeof(wire), "a packet is not longer than foreseen");
  for(k = 0; k < (int)sizeof(wire); ++k) if(k < (int)n) wire[k] = ((unsigned char*)b)[k];
  wn = (int)n; wp = 0;
  return((ssize_t)n);
}
#ifdef N1
ssize_t VP_STUB(readn)(int fd, void *b, size_t n, unsigned int t, int retry){
  int k;
  (void)t; (void)retry;
  VP_ASSERT(fd == 4 && (int)n <= wn - wp, "the client reads what was sent");
  for(k = 0; k < (int)sizeof(wire); ++k) if(k < (int)n) ((unsigned char*)b)[k] = wire[wp + k];
  wp += (int)n;
  return((ssize_t)n);
}
static int eqs(const char *a, const char *b){ int k; for(k = 0; a[k] != '\0' && a[k] == b[k]; ++k) ; return(a[k] == b[k]); }
static void run(long size, int nb, int kd, int re){
  unsigned int seq = vp_nd_u32();
  int ty = vp_nd_u8(), ca = vp_nd_u8(), co = vp_nd_u8(), ch = vp_nd_range(0, 3), st, i, k, at = 0, n = 0;
  uint32_t cs;
  fsize = size; kind = kd; rerr = re; pos = opened = closed = nread_ = 0;
  vp_nd_bytes(data, sizeof(data));
  st = init_nbs_packet_st(&s, path, seq, ty, ca, co, ch, NULL);
  VP_ASSERT(st == 0 && s.num_blocks == nb && opened == 1, "the number of blocks is that of the size");
  for(i = 1; i <= s.num_blocks && i <= nb; ++i){
    st = build_nbs_packet(&s);
    if(re == i){ VP_ASSERT(st == -1, "a read error is reported"); VP_REACH("read error"); break; }
    VP_ASSERT(st == 0, "a block can be sent");
    VP_ASSERT(send_nbs_packet(3, &s, 77, 2) == 0, "a block can be sent");
    cs = 0;
    for(k = 0; k < (int)sizeof(wire) - NBS_ENVELOPE_SIZE; ++k) if(k < wn - NBS_ENVELOPE_SIZE) cs += wire[NBS_ENVELOPE_SIZE + k];
    VP_ASSERT(cs == unpack_uint32(wire, 8), "the checksum is the sum of the data");
    st = recv_nbs_packet(4, &r, 1, 0);
    VP_ASSERT(st == 0 && wp == wn, "a client accepts the packet, all of it");
    VP_ASSERT(r.seq_number == seq && r.psh_product_type == ty && r.psh_product_category == ca && r.psh_product_code == co && r.np_channel_index == ch, "the fields come back");
    VP_ASSERT(eqs(r.fbasename, path + 9), "the name comes back");
    VP_ASSERT(r.num_blocks == nb && r.block_number == i && r.f_zip == 0, "the blocks are numbered from one");
    n = (i < nb) ? NBS1_BLOCK_SIZE : (int)(size - (long)(nb - 1)*NBS1_BLOCK_SIZE);
    VP_ASSERT((int)r.block_size == n, "the blocks cover the product");
    for(k = 0; k < n; ++k) VP_ASSERT((unsigned char)r.block[k] == data[at + k], "the contents come back");
    at += n;
  }
  free_nbs_packet_st(&s);
  VP_ASSERT(closed == 1, "the product is closed");
  if(re == 0){ VP_ASSERT(at == size, "the blocks cover the product"); if(nb == 3) VP_REACH("whole"); }
}
void nbs_roundtrip(void){
  switch(vp_nd_range(0, 6)){
  case 0: run(0, 0, 0, 0); break;
  case 1: run(1, 1, 1, 0); break;
  case 2: run(3, 1, 2, 0); break;
  case 3: run(4, 1, 0, 0); break;
  case 4: run(5, 2, 1, 0); break;
  case 5: run(8, 2, 2, 2); break;
  default: run(10, 3, 0, 0); break;
  }
}
#else
/* a connection that gives anything */
static int got[2];
ssize_t VP_STUB(readn)(int fd, void *p, size_t n, unsigned int t, int retry){
  int k, i = nread_++;
  size_t room = sizeof(r.packet);
  VP_ASSERT(fd == 5 && t == 9 && retry == 1, "the connection is read with its settings");
  VP_ASSERT(i < 2 && (char*)p == r.packet + (i == 0 ? 0 : NBS_ENVELOPE_SIZE) && n <= room - (i == 0 ? 0 : NBS_ENVELOPE_SIZE), "nothing is read beyond the packet");
  if(i >= 2 || n > room) return(-1);
  got[i] = vp_nd_range(-2, (int)room);
  VP_ASSUME(got[i] <= (int)n);
  for(k = 0; k < (int)room; ++k) if(k < (int)n && k < got[i]) ((unsigned char*)p)[k] = vp_nd_u8();
  return(got[i]);
}
void nbs_recv(void){
  int st, k, nul = 0;
  uint32_t ds;
  unsigned char *p = (unsigned char*)r.packet;
  st = recv_nbs_packet(5, &r, 9, 1);
  if(got[0] == -1) VP_ASSERT(st == -1, "a read error is reported");
  else if(got[0] == -2) VP_ASSERT(st == -2, "nothing to read is reported");
  else if(got[0] == 0) VP_ASSERT(st == -3, "the end of the connection is reported");
  else if(got[0] != NBS_ENVELOPE_SIZE) VP_ASSERT(st == 1, "a short packet is reported");
  if(st != 0) return;
  ds = unpack_uint32(p, 4);
  VP_ASSERT(nread_ == 2 && got[1] == (int)ds, "only a packet that is all there is used");
  VP_ASSERT(unpack_uint32(p, 0) == PACKID_FDATA, "only a packet of its kind is used");
  VP_ASSERT(ds >= NBS1_HEADER_SIZE && r.block_size == ds - NBS1_HEADER_SIZE, "the block is the rest of the packet");
  VP_ASSERT(r.block == r.packet + NBS_ENVELOPE_SIZE + NBS1_HEADER_SIZE, "the block is the rest of the packet");
  VP_ASSERT(r.packet_size == ds + NBS_ENVELOPE_SIZE, "the size is that of the packet");
  VP_ASSERT(r.seq_number == unpack_uint32(p, 12) && r.psh_product_type == p[16] && r.psh_product_category == p[17] && r.psh_product_code == p[18] && r.np_channel_index == p[19], "the fields are those at their places");
  for(k = 0; k <= FBASENAME_SIZE; ++k){
    if(!nul && k < FBASENAME_SIZE) VP_ASSERT(r.fbasename[k] == (char)p[20 + k], "the name is that in the packet");
    if(r.fbasename[k] == '\0') nul = 1;
  }
  VP_ASSERT(nul, "the name ends within its field");
  k = 20 + FBASENAME_SIZE + 1;
  VP_ASSERT(r.f_zip == p[k] && r.num_blocks == p[k + 1]*256 + p[k + 2] && r.block_number == p[k + 3]*256 + p[k + 4], "the fields are those at their places");
  if(r.block_size == 3) VP_REACH("received");
}
#endif
#endif
