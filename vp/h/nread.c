/* src/nreadn.c: every sequence of system results */
#include <poll.h>
#include <unistd.h>
#include <limits.h>
#include "vp.h"
#include "nreadn.h"
#ifndef MAX
#define MAX 5
#endif
#ifndef CALLS
#define CALLS 6
#endif
#define FD 7
static unsigned char stream[MAX + 1], buf[MAX + 2], got[MAX + 2];
static int pos, size0, npoll, nio, ncalls, err_seen, eof_seen, last_poll, timeouts, hup, retry0, streak, giveup, direct, to;

/* the retry interrupt asks to stop from some call on, or never */
static int intr, nintr;
static int stop(void){ ++nintr; return(intr != 0 && nintr >= intr); }

int VP_STUB(poll)(struct pollfd *p, nfds_t n, int t){
  int r;
  VP_ASSERT(n == 1 && p->fd == FD && t == to, "the descriptor given is waited for, for the time given");
  VP_ASSERT(!err_seen && !eof_seen && !giveup, "nothing is tried after an error or the end");
  ++npoll;
  /* a transfer function which goes on forever would pass this */
  VP_ASSERT(npoll <= CALLS*4, "terminates");
  r = (++ncalls > CALLS) ? -1 : vp_nd_range(-1, 1);
  p->revents = 0;
  if(r == 1){
    last_poll = 1;
    streak = 0;
    hup = vp_nd_bool();
    p->revents = hup ? POLLHUP : p->events;
    if(hup) eof_seen = 1;
  }else{
    last_poll = 0;
    if(r == -1){ err_seen = 1; errno = EIO; }
    else{ ++streak; ++timeouts; VP_ASSERT(streak <= (retry0 < 0 ? 0 : retry0) + 1, "it is tried again as many times as asked"); }
    if(r == 0 && streak == (retry0 < 0 ? 0 : retry0) + 1) giveup = 1;
  }
  return(r);
}
ssize_t VP_STUB(read)(int fd, void *b, size_t n){
  int r, k, nowait;
  VP_ASSERT(fd == FD && n > 0 && (int)n <= size0 - pos && (unsigned char*)b == buf + pos, "what is missing is asked for, in its place");
  nowait = (last_poll != 1);
  if(direct && nowait) VP_ASSERT(pos == 0 && nio == 0, "one more read, and only after nothing came");
  else VP_ASSERT(last_poll == 1 && hup == 0, "read only when ready");
  last_poll = 0;
  ++nio;
  r = vp_nd_range(-1, (int)n);
  if(r == -1){ if(!nowait) err_seen = 1; errno = EAGAIN; return(-1); }
  if(r == 0){ eof_seen = 1; return(0); }
  for(k = 0; k < MAX; ++k) if(k < r) ((unsigned char*)b)[k] = stream[pos + k];
  pos += r;
  return(r);
}
ssize_t VP_STUB(write)(int fd, const void *b, size_t n){
  int r, k;
  VP_ASSERT(fd == FD && n > 0 && (int)n <= size0 - pos && (unsigned char*)b == buf + pos, "what is missing is written, from its place");
  VP_ASSERT(last_poll == 1 && hup == 0, "write only when ready");
  last_poll = 0;
  r = vp_nd_range(-1, (int)n);
  if(r == -1){ err_seen = 1; errno = EPIPE; return(-1); }
  if(r == 0){ eof_seen = 1; return(0); }
  for(k = 0; k < MAX; ++k) if(k < r) got[pos + k] = ((unsigned char*)b)[k];
  pos += r;
  return(r);
}
static void common(void){
  int k;
  retry0 = vp_nd_range(-1, 2);
  size0 = vp_nd_range(0, MAX);
  for(k = 0; k < MAX; ++k) stream[k] = vp_nd_u8();
  buf[size0] = 0xa5;
  intr = vp_nd_range(0, 3);
  init_readn(vp_nd_bool() ? stop : NULL);
  if(intr == 0) nintr = 0;
}
static int interrupted(void){ return(intr != 0 && nintr >= intr); }

void reads(void){
  int k, eof = 5, which = vp_nd_range(0, 5);
  unsigned int t = vp_nd_range(0, 1000000);
  ssize_t r;
  common();
  to = t;
  direct = 0;
  if(which == 0) r = sreadm(FD, buf, size0, t, retry0, &eof);
  else if(which == 1) r = readm(FD, buf, size0, t, retry0);
  else if(which == 2){ VP_ASSUME(t < 2000); to = 1000*t; r = sreadn(FD, buf, size0, t, retry0, &eof); }
  else if(which == 3){ VP_ASSUME(t < 2000); to = 1000*t; r = readn(FD, buf, size0, t, retry0); }
  else if(which == 4){ retry0 = 0; direct = 2; VP_ASSUME(t < 2000 && size0 > 0); to = 1000*t; r = readn_fifo(FD, buf, size0, t); }
  else{ retry0 = 0; direct = 2; VP_ASSUME(size0 > 0); r = readm_fifo(FD, buf, size0, t); }
  VP_ASSERT(r >= -2 && r <= size0, "never more than asked");
  VP_ASSERT(buf[size0] == 0xa5, "nothing beyond the buffer is touched");
  if(r >= 0){
    VP_ASSERT(r == pos, "the count is what was transferred");
    for(k = 0; k < MAX; ++k) if(k < r) VP_ASSERT(buf[k] == stream[k], "the bytes are those read, in order");
    if(r < size0) VP_ASSERT((direct && pos > 0) || (eof_seen && !err_seen) || (!eof_seen && pos > 0 && (giveup || interrupted())), "a short count means the end of the data or a timeout");
    if((which == 0 || which == 2) && r < size0) VP_ASSERT(eof == eof_seen, "the end is told from a timeout");
    if(r == size0 && r > 3) VP_REACH("whole");
    if(eof == 0 && pos == 2) VP_REACH("timed out in the middle");
    if(which == 4 && giveup && r == 2) VP_REACH("arrived late");
  }else if(r == -1)
    VP_ASSERT(err_seen && !eof_seen, "an error is a system error");
  else{
    VP_ASSERT(pos == 0 && !err_seen && (giveup || interrupted()), "a timeout is reported as such only when nothing was read");
    VP_REACH("timeout");
  }
  if(err_seen) VP_ASSERT(r == -1, "a system error is reported");
}
void writes(void){
  int k, which = vp_nd_range(0, 1);
  unsigned int t = vp_nd_range(0, 1000000);
  ssize_t r;
  common();
  for(k = 0; k < MAX; ++k) buf[k] = stream[k];
  to = t;
  if(which == 0) r = writem(FD, buf, size0, t, retry0);
  else{ VP_ASSUME(t < 2000); to = 1000*t; r = writen(FD, buf, size0, t, retry0); }
  VP_ASSERT(r >= -1 && r <= size0, "never more than asked");
  for(k = 0; k < MAX; ++k) if(k < pos) VP_ASSERT(got[k] == stream[k], "the bytes are written once and in order");
  if(r >= 0){
    VP_ASSERT(r == pos && !err_seen, "the count is what was transferred");
    if(r < size0) VP_ASSERT(eof_seen || giveup || interrupted(), "a short count means a timeout or a closed peer");
    if(r == size0 && r > 3) VP_REACH("whole");
    if(giveup && r == 2) VP_REACH("timed out in the middle");
  }else
    VP_ASSERT(err_seen, "an error is a system error");
  if(err_seen) VP_ASSERT(r == -1, "a system error is reported");
}
