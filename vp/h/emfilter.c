/* the reply of the EMWIN server filter: serverm.c exec_emwin_filter with the real pfilter.c and nreadn.c */
#include <stdio.h>
#include <unistd.h>
#include <poll.h>
#include "vp.h"
#include "globals.h"
#include "packfp.h"
#include "pfilter.h"
struct nbsp_globals g;
int exec_emwin_filter(struct packet_info_st *p, char *a, size_t an, char *b, size_t bn);
extern struct pfilter_st *gemwinfilterp;

#define NR 12
#define PMAX 4
#define EMAX 3
static unsigned char reply[NR];
static int nreply, pos, broken, ioerr, nclosed, nprint, nopen, regex, nocalls, wr_err, open_err, toomany;
static char fpathout[PMAX + 2], emname[EMAX + 2];
static struct pfilter_st filt, filt2;
static char fifo[] = "f";

int VP_STUB(emwin_regex_match)(char *n){ (void)n; return(regex); }
int VP_STUB(fprintf)(FILE *f, const char *fmt, ...){ (void)f; (void)fmt; ++nprint; return(wr_err ? -1 : 5); }
int VP_STUB(fflush)(FILE *f){ (void)f; return(wr_err == 2 ? -1 : 0); }
int VP_STUB(pclose)(FILE *f){ (void)f; ++nclosed; return(0); }
int VP_STUB(close)(int f){ (void)f; return(0); }
int VP_STUB(unlink)(const char *f){ (void)f; return(0); }
void VP_STUB(free)(void *p){ (void)p; }
struct pfilter_st *VP_STUB(pfilter_open_wr)(char *s, char *f, unsigned int secs){
  (void)s; (void)f; (void)secs;
  ++nopen;
  if(open_err) return(NULL);
  filt2 = filt;
  return(&filt2);
}
int VP_STUB(poll)(struct pollfd *p, nfds_t n, int t){
  (void)n; (void)t;
  VP_ASSERT(nclosed == 0, "nothing is read from a filter which was closed");
  if(pos >= nreply || ++toomany > 6){ if(ioerr){ broken = 1; return(-1); } broken = 1; return(0); }
  p->revents = POLLIN;
  return(1);
}
ssize_t VP_STUB(read)(int fd, void *b, size_t n){
  size_t k;
  (void)fd;
  VP_ASSERT(n <= PMAX + 1, "no more is read than there is room for");
  if(pos >= nreply || toomany > 6){ broken = 1; errno = EAGAIN; return(-1); }
  for(k = 0; k < PMAX + 1; ++k) if(k < n && pos < nreply) ((unsigned char*)b)[k] = reply[pos++]; else break;
  return((ssize_t)k);
}
void emfilter(void){
  static struct packet_info_st pi;
  static char nm[] = "n";
  int k, st, a, b, opened;
  for(k = 0; k < NR; ++k) reply[k] = vp_nd_u8();
  nreply = vp_nd_range(0, NR);
  ioerr = vp_nd_bool(); regex = vp_nd_range(-1, 1); wr_err = vp_nd_range(0, 2); open_err = vp_nd_bool();
  pi.fname = pi.fpath = nm;
  g.f_emwinserver_enabled = 1;
  filt.fifofd = 3; filt.fifofpath = fifo; filt.secs = 1; filt.fp = (FILE*)&filt;
  opened = vp_nd_bool();
  gemwinfilterp = opened ? &filt : NULL;
  for(k = 0; k < PMAX + 2; ++k) fpathout[k] = 'p';
  for(k = 0; k < EMAX + 2; ++k) emname[k] = 'e';
  st = exec_emwin_filter(&pi, fpathout, PMAX + 1, emname, EMAX + 1);
  VP_ASSERT(fpathout[PMAX + 1] == 'p' && emname[EMAX + 1] == 'e', "nothing beyond the buffers is written");
  if(regex != 0){ VP_ASSERT(st == regex && nprint == 0, "a product excluded by name is not offered to the filter"); return; }
  if(!opened && open_err){ VP_ASSERT(st == -1, "a filter that cannot be opened is an error"); return; }
  VP_ASSERT(nopen == !opened, "a closed filter is opened again");
  if(wr_err){ VP_ASSERT(st == -1 && nclosed == 1 && gemwinfilterp == NULL, "a filter that cannot be written is closed"); return; }
  if(nreply < 1){ VP_ASSERT(st == -1 && nclosed == 1 && gemwinfilterp == NULL, "no reply is an error, and the filter is closed"); VP_REACH("no reply"); return; }
  if(reply[0] != 0){ VP_ASSERT(st == reply[0] && pos == 1 && nclosed == 0, "the filter decides"); VP_REACH("not passed"); return; }
  a = nreply < 5 ? 0 : reply[1]*256 + reply[2];
  b = nreply < 5 ? 0 : reply[3]*256 + reply[4];
  if(nreply < 5 || a > PMAX || b > EMAX || nreply < 5 + a + b){
    VP_ASSERT(st == -1, "an incomplete or too long reply is an error");
    VP_ASSERT(nclosed == 1 && gemwinfilterp == NULL, "the filter is closed to have the replies in step");
    if(nreply >= 5 && a == PMAX + 1) VP_REACH("path one too long");
    if(nreply == 6 && a == 2) VP_REACH("cut");
  }else{
    VP_ASSERT(st == 0 && nclosed == 0, "a complete reply is accepted");
    VP_ASSERT(pos == 5 + a + b, "exactly the reply is read");
    for(k = 0; k < PMAX; ++k) if(k < a) VP_ASSERT((unsigned char)fpathout[k] == reply[5 + k], "the path is that of the reply");
    for(k = 0; k < EMAX; ++k) if(k < b) VP_ASSERT((unsigned char)emname[k] == reply[5 + a + k], "the name is that of the reply");
    VP_ASSERT(fpathout[a] == 0 && emname[b] == 0, "both are complete");
    if(a == PMAX && b == EMAX) VP_REACH("longest");
  }
}
