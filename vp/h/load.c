/* load flags: src/load.c */
#include <time.h>
#include "vp.h"
#include "globals.h"
#include "per.h"
#include "load.h"
#include "qstate.h"
struct nbsp_globals g;
static int lerr; static int q4;
static unsigned int rtxi;
int VP_STUB(getloadavg)(double *l, int n){ (void)n; if(lerr) return(-1); l[0] = q4*0.25; l[1] = l[2] = 9; return(3); }
unsigned int VP_STUB(nbspstats_get_rtx_index)(void){ return(rtxi); }
void loads(void){
  int l, s;
  lerr = vp_nd_bool(); q4 = vp_nd_range(0, 4095); rtxi = vp_nd_urange(0, 2147483647);
  g.loadave_max_soft = vp_nd_int(); g.loadave_max_hard = vp_nd_int(); g.loadave_max_rtx_index = vp_nd_int();
  g.f_loadave_max = vp_nd_range(0, 2); g.f_loadave_max_rtx = vp_nd_bool();
  verify_load_ave_condition();
  l = q4/4;
  s = 0;
  if(!lerr && g.loadave_max_hard > 0 && l >= g.loadave_max_hard) s = 2;
  else if(!lerr && g.loadave_max_soft > 0 && l >= g.loadave_max_soft) s = 1;
  VP_ASSERT(g.f_loadave_max == s, "the load flag is set by the thresholds exceeded, and by nothing else");
  VP_ASSERT(g.f_loadave_max_rtx == (s > 0 && g.loadave_max_rtx_index > 0 && rtxi >= (unsigned)g.loadave_max_rtx_index),
	    "retransmissions are refused only under load and beyond their threshold");
  if(s == 2 && g.f_loadave_max_rtx == 0) VP_REACH("hard");
  if(s == 1 && g.f_loadave_max_rtx == 1) VP_REACH("soft");
}
