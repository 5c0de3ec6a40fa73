/* periodic tasks : src/per.c */
#include <time.h>
#include "vp.h"
#include "globals.h"
#include "per.h"
#include "load.h"
#include "qstate.h"
struct nbsp_globals g;
#ifdef PER
#define NP 9
static int ran[NP + 1], reopened, hup, rel1, rel2;
static time_t tnow;
static int tmin;
static long secs(void){ return(vp_nd_range(0, 1000000)); }
void VP_STUB(rept_pctl_quota)(void){ ++ran[0]; }
void VP_STUB(e_nbspq_report_quota)(void){ ++ran[1]; }
void VP_STUB(log_qstate)(void){ ++ran[2]; }
void VP_STUB(nbspstats_update)(void){ ++ran[3]; }
void VP_STUB(set_server_state_flag)(void){ ++ran[4]; }
void VP_STUB(set_filterserver_state_flag)(void){ ++ran[5]; }
void VP_STUB(verify_load_ave_condition)(void){ ++ran[6]; }
void VP_STUB(set_rtxdb_truncate_flag)(void){ ++ran[7]; }
void VP_STUB(nbsp_mspoolbdb_dbstats)(void){ ++ran[8]; }
void VP_STUB(exec_scheduler)(void){ ++ran[9]; }
void VP_STUB(set_reopen_qstatefifo_flag)(void){ ++reopened; }
int VP_STUB(get_hup_flag)(void){ return(hup); }
void VP_STUB(set_reload_filters_flag)(void){ ++rel1; }
void VP_STUB(set_reload_server_filters_flag)(void){ ++rel2; }
time_t VP_STUB(time)(time_t *p){ if(p != NULL) *p = tnow; return(tnow); }
struct tm *VP_STUB(localtime_r)(const time_t *t, struct tm *tm){ VP_ASSERT(*t == tnow, "the minute is that of the present"); tm->tm_min = tmin; return(tm); }
static long draw(void){ return(vp_nd_range(0, 4000000)); }
#ifndef NSCAN
#define NSCAN 3
#endif
void tasks(void){
  long per[NP], next[NP], mins;
  int i, k, m, lastm;
  g.queue_quota_logperiod_secs = secs();
  g.qstate_logperiod_secs = secs();
  g.nbspstats_logperiod_secs = secs();
  g.serverstate_logperiod_secs = secs();
  g.loadave_checkperiod_secs = secs();
  mins = vp_nd_range(0, 100000);
  g.rtxdb_truncate_minutes = mins;
  g.mspoolbdb_dbstats_logperiod_secs = secs();
  per[0] = per[1] = g.queue_quota_logperiod_secs;
  per[2] = g.qstate_logperiod_secs;
  per[3] = g.nbspstats_logperiod_secs;
  per[4] = per[5] = g.serverstate_logperiod_secs;
  per[6] = g.loadave_checkperiod_secs;
  per[7] = mins*60;
  per[8] = g.mspoolbdb_dbstats_logperiod_secs;
  tnow = draw(); tmin = lastm = vp_nd_range(0, 59);
  init_periodic();
  for(i = 0; i < NP; ++i) next[i] = tnow + per[i];
  for(k = 0; k < NSCAN; ++k){
    tnow = draw(); tmin = vp_nd_range(0, 59); hup = vp_nd_bool();
    reopened = rel1 = rel2 = 0;
    for(i = 0; i <= NP; ++i) ran[i] = 0;
    periodic();
    for(i = 0; i < NP; ++i){
      VP_ASSERT(ran[i] == (tnow >= next[i]), "each task runs once when its time has come and not before");
      if(tnow >= next[i]) next[i] += per[i];
    }
    VP_ASSERT(ran[NP] == (tmin != lastm), "the scheduler runs once in each new minute");
    lastm = tmin;
    VP_ASSERT(rel1 == hup && rel2 == hup, "all filters are reloaded when asked for");
    VP_ASSERT(reopened == 1, "the state fifo is looked at in each scan");
    if(k == 2 && ran[0] == 1 && ran[7] == 0 && ran[3] == 0) VP_REACH("some");
  }
}
#endif
