/* EMWIN packets served: src/emwin.c, src/serverc.c (send_emwin_client), src/util.c */
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#include <time.h>
#include <sys/stat.h>
#include "globals.h"
#include "util.h"
#include "libconnth/libconn.h"
#include "emwin.h"
int send_emwin_client(struct conn_element_st *ce, struct emwin_queue_info_st *eqinfo, uint32_t eqinfo_size);
struct nbsp_globals g;
#ifdef SUM
uint32_t calc_checksum(void *data, size_t size);
void sum(void){
  static unsigned char d[16];
  uint32_t t = 0;
  int n = vp_nd_range(0, 16), k;
  vp_nd_bytes(d, sizeof(d));
  for(k = 0; k < 16; ++k) if(k < n) t += d[k];
  VP_ASSERT(calc_checksum(d, n) == t, "the checksum is the sum of the bytes");
  if(n == 16 && t > 3000) VP_REACH("large");
}
#else
#define NSYM 16
static struct conn_element_st ce;
static struct emwin_queue_info_st qi;
static long fsize;
static int pos, opened, closed, sent, serr, rerr, oerr;
static unsigned char part[EMWIN_DATA_SIZE];
static int partsize, nread_, nparts, broken, statusset;
static char nm_[16];
static const char date_[] = "01/02/2003 04:05:06 PM";
int VP_STUB(stat)(const char *f, struct stat *sb){ VP_ASSERT(f == qi.fpathout, "the file is that of the notice"); if(oerr == 2) return(-1); sb->st_size = fsize; return(0); }
int VP_STUB(open)(const char *f, int fl, ...){ (void)fl; VP_ASSERT(f == qi.fpathout, "the file is that of the notice"); if(oerr == 1) return(-1); ++opened; return(7); }
int VP_STUB(close)(int fd){ VP_ASSERT(fd == 7, "the file is closed"); ++closed; return(0); }
time_t VP_STUB(time)(time_t *t){ if(t != NULL) *t = 5; return(5); }
struct tm *VP_STUB(localtime_r)(const time_t *t, struct tm *tm){ (void)t; return(tm); }
size_t VP_STUB(strftime)(char *b, size_t n, const char *f, const struct tm *tm){
  (void)f; (void)tm;
  VP_ASSERT(n == 23, "there is room for the date");
  memcpy(b, date_, 23);
  return(22);
}
static unsigned char base(int i){ return((unsigned char)(i*37 + (i >> 4)*11 + 5)); }
ssize_t VP_STUB(read)(int fd, void *b, size_t n){
  int k;
  VP_ASSERT(fd == 7 && n <= EMWIN_DATA_SIZE, "the file is read a part at a time");
  ++nread_;
  if(rerr == nread_) return(-1);
  partsize = (int)n;
  if(pos + (long)n > fsize) partsize = fsize - pos;
  for(k = 0; k < EMWIN_DATA_SIZE; ++k){
    part[k] = 0;
    if(k < partsize) part[k] = base(k);
    if(k < partsize && k >= partsize - NSYM) part[k] = vp_nd_u8();
    if(k < partsize) ((unsigned char*)b)[k] = part[k];
  }
  pos += partsize;
  return(partsize);
}
/* fixed width output only, so that every place is known */
static int emit(char *b, size_t size, int o, char c){ if(o < (int)size - 1) b[o] = c; return(o + 1); }
int VP_STUB(snprintf)(char *b, size_t size, const char *f, ...){
  va_list ap;
  int o = 0;
  va_start(ap, f);
  for(; *f != '\0'; ++f){
    int left = 0, w = 0, k;
    if(*f != '%'){ o = emit(b, size, o, *f); continue; }
    ++f;
    if(*f == '-'){ left = 1; ++f; }
    while(*f >= '0' && *f <= '9') w = w*10 + (*f++ - '0');
    if(*f == 's'){
      const char *s = va_arg(ap, char*);
      if(w == 0) for(k = 0; s[k] != '\0'; ++k) o = emit(b, size, o, s[k]);
      else{
	int end = 0;
	VP_ASSERT(left, "the name is written from the left");
	for(k = 0; k < w; ++k){ if(!end && s[k] == '\0') end = 1; o = emit(b, size, o, end ? ' ' : s[k]); }
	VP_ASSERT(end || s[w] == '\0', "the name fits its place");
      }
    }else{
      int v = *f == 'd' || *f == 'u' || *f == 'i' ? va_arg(ap, int) : -1;
      int t = 0, started = 0, dg[6], nd = 0;
      VP_ASSERT(v >= 0 && left && w >= 1 && w <= 6, "numbers are written from the left in their place");
      if(w > 6) w = 6;
      /* the digits of v, by what they mean */
      for(k = 0; k < w; ++k){ dg[k] = vp_nd_range(0, 9); t = t*10 + dg[k]; }
      VP_ASSUME(t == v);
      for(k = 0; k < w; ++k){
	int j;
	if(dg[k] != 0 || k == w - 1) started = 1;
	if(started) ++nd;
	(void)j;
      }
      for(k = 0; k < w; ++k){
	char c = ' ';
	int j;
	for(j = 0; j < w; ++j) if(j - (w - nd) == k) c = (char)('0' + dg[j]);
	o = emit(b, size, o, c);
      }
    }
  }
  if(size > 0) b[o < (int)size - 1 ? o : (int)size - 1] = '\0';
  va_end(ap);
  return(o);
}
static int lit(const unsigned char *p, int o, const char *s){ int k, ok = 1; for(k = 0; s[k] != '\0'; ++k) ok &= p[o + k] == (unsigned char)s[k]; return(ok); }
/* -1 unless a number from the left, blanks after */
static int num(const unsigned char *p, int o, int w){
  int v = 0, k, end = 0, bad = 0;
  for(k = 0; k < w; ++k){
    int c = p[o + k];
    if(!end && c >= '0' && c <= '9') v = v*10 + c - '0';
    else if(c == ' ' && k > 0) end = 1;
    else bad = 1;
  }
  return(bad ? -1 : v);
}
ssize_t VP_STUB(writem)(int fd, void *b, size_t n, unsigned int ms, int retry){
  static unsigned char q[EMWIN_PACKET_SIZE];
  int k, ok = 1, cs = 0;
  const unsigned char *p = b;
  VP_ASSERT(fd == 3 && ms == 77 && retry == 2, "the packet goes to the client with its settings");
  VP_ASSERT(n == EMWIN_PACKET_SIZE, "a packet has the size of the protocol");
  for(k = 0; k < EMWIN_PACKET_SIZE; ++k) q[k] = p[k] ^ 0xff;
  ++sent;
  for(k = 0; k < 6; ++k) ok &= q[k] == 0 && q[EMWIN_PACKET_SIZE - 1 - k] == 0;
  VP_ASSERT(ok, "the packet starts and ends with six zeros");
  ok = 1;
  for(k = 0; k < EMWIN_DATA_SIZE; ++k){ ok &= q[86 + k] == part[k]; cs += part[k]; }
  VP_ASSERT(ok, "the packet has the bytes of the part, padded with zeros");
  ok = lit(q, 6, "/PF") && lit(q, 21, "/PN ") && lit(q, 30, "/PT ") && lit(q, 39, "/CS ") && lit(q, 49, "/FD") && lit(q, 52, date_) && lit(q, 74, "          \r\n");
  VP_ASSERT(ok, "the header has the pieces of the protocol");
  ok = 1;
  for(k = 0; k < 12; ++k){ char c = nm_[k]; if(c >= 'a' && c <= 'z') c -= 32; ok &= q[9 + k] == (unsigned char)c; }
  VP_ASSERT(ok, "the header names the file in capitals");
  VP_ASSERT(num(q, 25, 5) == sent, "the part number is that of the part");
  VP_ASSERT(num(q, 34, 5) == nparts, "the number of parts is that of the file");
  VP_ASSERT(num(q, 43, 6) == cs, "the checksum is the sum of the data bytes");
  if(serr == sent){ broken = 1; return(vp_nd_bool() ? -1 : EMWIN_PACKET_SIZE - 1); }
  return((ssize_t)n);
}
int VP_STUB(conn_element_get_fd)(struct conn_element_st *c){ (void)c; return(3); }
char *VP_STUB(conn_element_get_nameorip)(struct conn_element_st *c){ (void)c; return("c"); }
int VP_STUB(conn_element_get_write_timeout_ms)(struct conn_element_st *c){ (void)c; return(77); }
int VP_STUB(conn_element_get_write_timeout_retry)(struct conn_element_st *c){ (void)c; return(2); }
void VP_STUB(conn_element_set_fd)(struct conn_element_st *c, int fd){ (void)c; VP_ASSERT(broken && fd == -1, "only a broken connection is dropped"); ++statusset; }
int VP_STUB(conn_element_set_connection_status)(struct conn_element_st *c, int s){ (void)c; (void)s; VP_ASSERT(broken, "only a broken connection is dropped"); return(0); }
void VP_STUB(conn_stats_update_packets)(struct conn_stats_st *cs, size_t n){ (void)cs; (void)n; }
#ifndef SIZES
static void run(long size, int np, int oe, int re, int se){
  int k, st, n;
  fsize = size; nparts = np;
  pos = opened = closed = sent = nread_ = broken = statusset = 0;
  oerr = oe; serr = se; rerr = re;
  for(k = 0; k < 13; ++k) qi.emwinfname[k] = 0;
  n = vp_nd_range(1, 12);
  for(k = 0; k < 12; ++k){
    uint8_t c = vp_nd_u8();
    VP_ASSUME(c > 32 && c < 127);
    nm_[k] = ' ';
    if(k < n){ qi.emwinfname[k] = (char)c; nm_[k] = (char)c; }
  }
  st = send_emwin_client(&ce, &qi, sizeof(qi));
  VP_ASSERT(opened == closed, "the file is closed in every case");
  if(oerr){ VP_ASSERT(st != 0 && sent == 0, "a file that cannot be read is an error"); return; }
  if(serr == 0 && rerr == 0){
    VP_ASSERT(st == 0 && sent == np && pos == size, "all the parts are sent");
    
#ifndef FAULTS
    VP_REACH("all");
#endif

  }
  if(st == 0) VP_ASSERT(sent == np && pos == size && !broken, "no part is missing without an error");
  VP_ASSERT(statusset == broken, "a broken connection is dropped");
  if(broken){ VP_ASSERT(st != 0, "a broken connection is an error");
#ifdef FAULTS
    VP_REACH("broken");
#endif
   }
}
#endif
#ifdef SIZES
void emwin_sizes(void){
  static struct emwin_packet_st ep;
  long full;
  int st;
  fsize = (long)vp_nd_urange(0, 102398976UL);
  st = init_emwin_packet_st(&ep, qi.fpathout, qi.emwinfname);
  VP_ASSERT(st == 0 && ep.part_number == 0 && ep.packet_size == 1116, "a packet has the size of the protocol");
  full = ep.parts_total > 0 ? (long)(ep.parts_total - 1)*1024 : 0;
  if(fsize == 0) VP_ASSERT(ep.parts_total == 0, "nothing to send for an empty file");
  else VP_ASSERT(ep.parts_total > 0 && ep.last_part_size >= 1 && ep.last_part_size <= 1024 && full + ep.last_part_size == fsize, "the parts cover the file");
  VP_ASSERT(sizeof(ep.packet) == 1116 && EMWIN_DATA_SIZE == 1024 && EMWIN_PACKET_SIZE == 1116 && EMWIN_HEADER_SIZE == 80 && EMWIN_HEADER_FNAMESIZE == 12, "the sizes are those of the protocol");
  VP_ASSERT(ep.parts_total <= 99999, "the part number fits its place");
  if(ep.last_part_size == 1024 && fsize > 100000) VP_REACH("whole parts");
}
#elif !defined(FAULTS)
void emwin_file(void){
  switch(vp_nd_range(0, 6)){
  case 0: run(0, 0, 0, 0, 0); break;
  case 1: run(1, 1, 0, 0, 0); break;
  case 2: run(15, 1, 0, 0, 0); break;
  case 3: run(16, 1, 0, 0, 0); break;
  case 4: run(17, 2, 0, 0, 0); break;
  case 5: run(32, 2, 0, 0, 0); break;
  default: run(40, 3, 0, 0, 0); break;
  }
}
#else
void emwin_faults(void){
  switch(vp_nd_range(0, 4)){
  case 0: run(23, 2, 1, 0, 0); break;
  case 1: run(23, 2, 2, 0, 0); break;
  case 2: run(23, 2, 0, 2, 0); break;
  case 3: run(23, 2, 0, 0, 1); break;
  default: run(23, 2, 0, 0, 2); break;
  }
}
#endif
#endif
