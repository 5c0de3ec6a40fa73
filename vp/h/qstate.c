/* queue state record: src/qstate.c */
#include <time.h>
#include "vp.h"
#include "globals.h"
#include "per.h"
#include "load.h"
#include "qstate.h"
struct nbsp_globals g;
#include "libqdb/qdb.h"
#include "nbspq.h"
#define NQ 3
static struct pctl_st pctl; static struct pctldb_st pdb;
static struct nbsp_qtable_st qt; static struct nbspq_st nq[NQ]; static struct nbspq_st *nqp[NQ];
static uint32_t area[2*(NQ + 1) + 2];
static int asked, fd0, wres, werr, nw, nclose, nopen, oerr, bufn;
static uint32_t out[2*(NQ + 1) + 1];
void *VP_STUB(malloc)(size_t n){ asked = (int)n; VP_ASSERT(n <= sizeof(area), "the record has one place for each value"); return(area); }
int VP_STUB(unlink)(const char *f){ (void)f; return(0); }
int VP_STUB(mkfifo)(const char *f, mode_t m){ (void)f; (void)m; return(0); }
int VP_STUB(open)(const char *f, int fl, ...){ (void)f; (void)fl; ++nopen; if(oerr){ errno = oerr == 1 ? ENXIO : EIO; return(-1); } return(9); }
int VP_STUB(close)(int fd){ VP_ASSERT(fd == fd0, "the fifo is closed"); ++nclose; return(0); }
ssize_t VP_STUB(writem)(int fd, void *b, size_t n, unsigned int ms, int retry){
  int k;
  (void)ms; (void)retry;
  VP_ASSERT(fd == fd0 && (int)n == asked, "the whole record is written, to the fifo");
  for(k = 0; k < 2*(NQ + 1) + 1; ++k) if(4*k < (int)n) out[k] = ((uint32_t*)b)[k];
  ++nw; bufn = (int)n/4;
  if(wres == -1){ errno = werr ? EPIPE : EIO; return(-1); }
  return(wres == 0 ? (ssize_t)n : (ssize_t)n - 1);
}
static void qrun(int nch){
  int i, tab = vp_nd_bool(), reopen = vp_nd_bool(), st;
  g.pctl = &pctl; pctl.pctldb = &pdb;
  g.qstatefifo = "q";
  g.queue_numchannels = nch;
  pdb.n = vp_nd_u32(); pdb.nmax = vp_nd_u32();
  for(i = 0; i < NQ; ++i){ nqp[i] = &nq[i]; nq[i].n = vp_nd_u32(); nq[i].nmax = vp_nd_u32(); }
  qt.nbspq = nqp;
  g.qtable = tab ? &qt : NULL;
  st = init_qstate_fifo();
  VP_ASSERT(st == 0 && asked == 4*(1 + 2*(nch + 1)), "the record has one place for each value");
  fd0 = vp_nd_bool() ? 7 : -1;
  g.qstatefifo_fd = fd0;
  oerr = vp_nd_range(0, 2); wres = vp_nd_range(-1, 1); werr = vp_nd_bool();
  if(reopen){ set_reopen_qstatefifo_flag(); if(fd0 == -1 && !oerr) fd0 = 9; }
  e_report_qstate();
  VP_ASSERT(nw == (fd0 != -1), "one record is written when a reader is there");
  if(fd0 == -1) return;
  VP_ASSERT(out[0] == (uint32_t)nch && out[1] == pdb.n, "the loads are those of the queues");
  for(i = 0; i < nch; ++i) VP_ASSERT(out[2 + i] == (tab ? nq[i].n : 0), "the loads are those of the queues");
  VP_ASSERT(out[2 + nch] == pdb.nmax, "the loads are those of the queues");
  for(i = 0; i < nch; ++i) VP_ASSERT(out[3 + nch + i] == (tab ? nq[i].nmax : 0), "the loads are those of the queues");
  if(wres == -1 && werr){ VP_ASSERT(nclose == 1 && g.qstatefifo_fd == -1, "a fifo without a reader is closed"); VP_REACH("gone"); }
  else VP_ASSERT(nclose == 0 && g.qstatefifo_fd == fd0, "the fifo is kept open otherwise");
  if(fd0 == 9) VP_REACH("opened");
}
void qstate(void){
  switch(vp_nd_range(0, 3)){ case 0: qrun(0); break; case 1: qrun(1); break; case 2: qrun(2); break; default: qrun(3); }
}
