/* tools/nbspinsert: the whole program, from its arguments to the message in the fifo */
#include "vp.h"
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/file.h>
extern int vp_repo_main(int argc, char **argv);
static char a0[] = "n", afifo[] = "F", aseq[] = "7", atype[6] = "1", acat[6] = "2", acode[6] = "3", anp[6] = "4", aname[] = "nm", apath[] = "P";
static char *av[] = {a0, aseq, atype, acat, acode, anp, aname, apath, NULL};
static int iopt, opts, fail, L, nfmt, len[4], nrd, nwr, locked, fifo, file, done, sent, cut, unl, nfw, nblk; static char dyn[1500]; static int dynfreed, dynalive;
static int total_in, total_out; static unsigned char mark[4]; static int big, expect_ok;
static char *sbuf;
void VP_STUB(set_progname)(char *s){ (void)s; }
void VP_STUB(set_usesyslog)(void){ }
static void finish(int rc);
void VP_STUB(log_errx)(int e, char *f, ...){ (void)f; if(e != 0){ finish(e); VP_DONE(); } }
void VP_STUB(log_err)(int e, char *f, ...){ (void)f; if(e != 0){ finish(e); VP_DONE(); } }
int VP_STUB(atexit)(void (*f)(void)){ (void)f; return(0); }
char *VP_STUB(__xpg_basename)(char *p){ return(p); }
int VP_STUB(getopt)(int c, char * const *v, const char *o){
  (void)c; (void)v; (void)o;
  if(opts == 0){ ++opts; optarg = afifo; return('f'); }
  if(opts == 1 && iopt){ ++opts; return('i'); }
  optind = 1;
  return(-1);
}
int VP_STUB(stat)(const char *p, struct stat *s){ VP_ASSERT(p == afifo, "the fifo asked for"); if(fail == 1) return(-1); s->st_mode = fail == 2 ? S_IFREG : S_IFIFO; return(0); }
int VP_STUB(open)(const char *p, int fl, ...){
  if(p == afifo){
    VP_ASSERT(!fifo && (fl & O_ACCMODE) == O_WRONLY && (fl & O_NONBLOCK) && !(fl & (O_CREAT | O_TRUNC)), "the fifo is opened for writing without waiting for a reader");
    if(fail == 3) return(-1);
    fifo = 1; return(30);
  }
  VP_ASSERT(p == apath && iopt && !file, "only the product is written, when asked for");
  VP_ASSERT((fl & O_ACCMODE) == O_WRONLY && (fl & O_CREAT) && (fl & O_TRUNC), "nothing of an older file remains");
  if(fail == 6) return(-1);
  file = 1; return(40);
}
int VP_STUB(flock)(int fd, int op){
  VP_ASSERT(fd == 30 && fifo, "the fifo is locked");
  if(op == LOCK_EX){ if(fail == 4) return(-1); locked = 1; }
  else VP_ASSERT(op == LOCK_UN, "locked or unlocked");
  if(op == LOCK_UN) locked = 0;
  return(0);
}
int VP_STUB(fcntl)(int fd, int op, ...){
  int v; va_list ap;
  VP_ASSERT(fd == 30 && fifo, "the fifo");
  if(op == F_GETFL) return(O_WRONLY | O_NONBLOCK);
  va_start(ap, op); v = va_arg(ap, int); va_end(ap);
  VP_ASSERT(op == F_SETFL && !(v & O_NONBLOCK), "writing waits for room");
  if(fail == 5) return(-1);
  nblk = 1;
  return(0);
}
int VP_STUB(close)(int fd){
  if(fd == 30){ VP_ASSERT(fifo, "closed once"); fifo = 0; locked = 0; return(0); }
  VP_ASSERT(fd == 40 && file == 1, "closed once"); file = 2; return(fail == 16 ? -1 : 0); }
int VP_STUB(unlink)(const char *p){ VP_ASSERT(p == apath && iopt, "only the product is removed"); ++unl; return(fail == 15 ? -1 : 0); }
ssize_t VP_STUB(read)(int fd, void *b, size_t n){
  VP_ASSERT(fd == 0 && file == 1 && n >= 3 && nrd < 4, "the input is read until its end");
  if(fail == 7 && nrd == 1) return(-1);
  if(len[nrd] > 0){ mark[nrd] = vp_nd_u8(); ((unsigned char*)b)[0] = mark[nrd]; ((unsigned char*)b)[2] = mark[nrd] ^ 1; total_in += 3; ++nrd; return(3); }
  ++nrd; return(0);
}
ssize_t VP_STUB(write)(int fd, const void *b, size_t n){
  const unsigned char *p = b;
  if(fd == 40){
    VP_ASSERT(file == 1 && n == 3 && p[0] == mark[nrd - 1] && p[2] == (mark[nrd - 1] ^ 1), "the product is written as it was read");
    ++nwr;
    if(nwr == 2 && fail == 8) return(2);
    if(nwr == 1 && fail == 9) return(-1);
    total_out += 3; return(3);
  }
  VP_ASSERT(fd == 30 && fifo && locked && nblk, "a message is sent with the fifo locked");
  VP_ASSERT(nfw < 3, "within the model");
  VP_ASSERT(n == (size_t)(L + 5 - sent), "what remains of the message");
  if(nfw == 0){
    VP_ASSERT(p[0] == 0 && p[1] == 0 && p[2] == L / 256 && p[3] == L % 256, "the message starts with its size");
    VP_ASSERT(p[4] == 'S' && p[L + 4] == '\n', "then its text and a new line");
    sbuf = (char*)p;
  }else VP_ASSERT((char*)p == sbuf + sent, "the rest of the message");
  ++nfw;
  if(fail == 10) return(-1);
  if(fail == 14) return(0);
  if((fail == 11 || fail == 12) && nfw == 1){ sent = 6; return(6); }
  if(fail == 11) return(-1);
  sent += (int)n; return(n);
}
int VP_STUB(snprintf)(char *b, size_t n, const char *f, ...){
  va_list ap; int k; char *s;
  (void)f; ++nfmt;
  va_start(ap, f);
  for(k = 0; k < 7; ++k){ s = va_arg(ap, char *); VP_ASSERT(s == av[k + 1], "the message has the product in order"); }
  va_end(ap);
  b[0] = 'S';
  if((size_t)L < n) b[L] = 0; else b[n - 1] = 0;
  return(L);
}
void *VP_STUB(malloc)(size_t n){ VP_ASSERT(n == (size_t)L + 5 && n <= sizeof(dyn), "room for the message"); if(fail == 13) return(NULL); dynalive = 1; return(dyn); }
void VP_STUB(free)(void *p){ VP_ASSERT(p == dyn && dynalive == 1, "freed once"); dynalive = 0; }
static void finish(int rc){
  VP_ASSERT((rc == 0) == expect_ok, "the program says whether the product was inserted");
  if(rc == 0){
    VP_ASSERT(sent == L + 5, "the whole message was sent");
    if(iopt) VP_ASSERT(file == 2 && total_in == total_out && unl == 0, "and the whole product saved");
    else VP_ASSERT(file == 0, "the product was already there");
  }else{
    if(iopt && file) VP_ASSERT(unl >= 1, "nothing is left of a product that was not inserted");
    if(!iopt) VP_ASSERT(unl == 0, "a product that was already there is kept");
    VP_ASSERT(sent < L + 5, "nothing was notified");
  }
  VP_ASSERT(file != 1, "the product is closed");
}
static const int LENS[6] = {20, 300, 1018, 1019, 1020, 1400};
static void one(int i, int f, int l, int in){
  int rc, k;
  iopt = i; fail = f; L = LENS[l];
  for(k = 0; k < 4; ++k) len[k] = k < in;
  big = L + 1 > 1020;
  expect_ok = f == 0 || f == 12 || f == 15 || (f == 6 && !i) || (f == 7 && (!i || in < 1)) || (f == 8 && (!i || in < 2)) || (f == 9 && (!i || in < 1)) || (f == 13 && !big) || (f == 16 && !i);
  if(f == 7 && i && in >= 1) expect_ok = 0;
  rc = vp_repo_main(8, av);
  finish(rc);
  VP_ASSERT(!fifo && !locked, "the fifo is released");
  VP_ASSERT(!dynalive, "the memory is freed");
  if(rc == 0 && big && i && in == 2) VP_REACH("a long message");
  if(rc != 0 && f == 8) VP_REACH("the disk is full");
}
/* f = 0: the arguments */
static void arg(int which, int v){
  static const char *bad[6] = {"256", "-1", "x", "", "1x", "99999"};
  char *d = which == 0 ? atype : which == 1 ? acat : which == 2 ? acode : anp;
  int k;
  for(k = 0; k < 5; ++k){ d[k] = bad[v][k]; if(bad[v][k] == 0) break; }
  d[5] = 0;
  iopt = 1; fail = 0; L = 20; expect_ok = 0;
  (void)vp_repo_main(8, av);
  VP_ASSERT(0, "a value out of its range is refused");
}
void nbspinsert(void){
  int c = vp_nd_range(0, 2*17*6*3 + 24 - 1), i, f, l, in, k = 0;
  for(i = 0; i < 2; ++i) for(f = 0; f < 17; ++f) for(l = 0; l < 6; ++l) for(in = 0; in < 3; ++in){ if(c == k ONLY){ one(i, f, l, in); VP_DONE(); } ++k; }
  for(i = 0; i < 4; ++i) for(f = 0; f < 6; ++f){ if(c == k ARGS){ arg(i, f); VP_DONE(); } ++k; }
}
