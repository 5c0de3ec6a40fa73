/* src/sfilter.c: the line given to the server filter; src/serverf.c: who is allowed */
#include "vp.h"
#include <stdio.h>
#include "globals.h"
#include "sfilter.h"
#ifdef LINE
#ifndef MF
#define MF 5
#endif
static char area[128];
static unsigned int acap;
char *VP_STUB(Tcl_Realloc)(char *p, unsigned int n){
  int k;
  VP_ASSERT(p == area && n <= 128, "the buffer is enlarged");
  acap = n;
  return(area);
}
static struct sfilterp_st sf;
static struct packet_info_st pi;
static char fn[MF + 1], fp[MF + 1];
static char exp_[128];
static int el;
static void putstr(const char *s){ int k; for(k = 0; s[k] != '\0'; ++k) exp_[el++] = s[k]; }
static void run(const char *num){
  int k, st;
  VP_ASSUME(1);
  el = 0;
  putstr(num); exp_[el++] = ' '; putstr(fn); exp_[el++] = ' '; putstr(fp); exp_[el] = '\0';
  st = init_sfilter_input(&sf, &pi);
  VP_ASSERT(st == 0 && sf.input == area && sf.input_size == (int)acap, "the line is made");
  VP_ASSERT(el < (int)acap, "the line fits in its buffer");
  for(k = 0; k <= 48 + 2*MF; ++k) if(k <= el) VP_ASSERT(area[k] == exp_[k], "the line has the fields of the product, in order and complete");
}
static void numbers(int which){
  if(which == 0){
    pi.seq_number = 4294967295U; pi.psh_product_type = -128; pi.psh_product_category = 127; pi.psh_product_code = 0; pi.np_channel_index = 3;
    run("4294967295 -128 127 0 3");
  }else{
    pi.seq_number = 0; pi.psh_product_type = 1; pi.psh_product_category = 2; pi.psh_product_code = 3; pi.np_channel_index = 4;
    run("0 1 2 3 4");
  }
}
void sfline(void){
  size_t a, b;
  sf.input = area; acap = 1; sf.input_size = 1; area[0] = '\0';
  if(vp_nd_bool()){ acap = 32; sf.input_size = 32; }
  pi.fname = fn; pi.fpath = fp;
  a = vp_nd_str(fn, MF);
  b = vp_nd_str(fp, MF);
  if(vp_nd_bool()) numbers(0); else numbers(1);
  if(el == 31 && acap == 32) VP_REACH("just fits");
  if(el == 32 && acap == 64) VP_REACH("one too long");
}
#else
#include "libconnth/libconn.h"
#include "server_priv.h"
#include "defaults.h"
#define NC 2
static struct conn_table_st ct;
static struct conn_element_st ces[NC + 1];
static struct { int allow; } fd[NC + 1];
static char nm[NC][3], ipa[NC][3];
static int hasname[NC], isclient[NC], created[NC], finished[NC], v_name[NC], v_ip[NC], v_def[NC], val[NC][3], ex_fail[NC];
static int cur, nexec, set_name, set_ip, badset;
static struct sfilterp_st sf;
/* which client an element of the table is */
static int who(struct conn_element_st *ce){ return(ce == &ces[0] ? 0 : 1); }
int VP_STUB(conn_table_get_numentries)(struct conn_table_st *t){ (void)t; return(NC); }
int VP_STUB(conn_table_get_element_fthread_created)(struct conn_table_st *t, int i){ (void)t; return(created[i]); }
int VP_STUB(conn_table_get_element_fthread_finished)(struct conn_table_st *t, int i){ (void)t; return(finished[i]); }
int VP_STUB(conn_element_isclient)(struct conn_element_st *ce){ return(isclient[who(ce)]); }
char *VP_STUB(conn_element_get_name)(struct conn_element_st *ce){ return(hasname[who(ce)] ? nm[who(ce)] : NULL); }
char *VP_STUB(conn_element_get_ip)(struct conn_element_st *ce){ return(ipa[who(ce)]); }
static char r_name[] = "n", r_ip[] = "i", r_def[] = "d", r_bad[] = "b";
const char *VP_STUB(Tcl_SetVar2)(Tcl_Interp *ip, const char *a, const char *x, const char *v, int fl){
  (void)ip; (void)a; (void)fl;
  /* the client at hand is known by its address, always set */
  if(x[6] == 'i'){ cur = (v == ipa[0]) ? 0 : 1; set_ip = 1; }
  else if(v[0] != '\0'){ cur = (v == nm[0]) ? 0 : 1; set_name = 1; }
  else set_name = 1;
  return(badset ? NULL : v);
}
int VP_STUB(exec_sfilter_script)(struct sfilterp_st *s){
  (void)s;
  VP_ASSERT(set_name && set_ip, "the filter is told name and address before it decides");
  set_name = set_ip = 0;
  ++nexec;
  return(ex_fail[cur] ? 1 : 0);
}
const char *VP_STUB(Tcl_GetVar2)(Tcl_Interp *ip, const char *a, const char *x, int fl){
  (void)ip; (void)a; (void)fl;
  if(x == nm[0] || x == nm[1]){ VP_ASSERT(x == nm[cur], "the client's own setting is asked for"); return(v_name[cur] == 0 ? NULL : v_name[cur] == 1 ? r_name : r_bad); }
  if(x == ipa[0] || x == ipa[1]){ VP_ASSERT(x == ipa[cur], "the client's own setting is asked for"); return(v_ip[cur] == 0 ? NULL : v_ip[cur] == 1 ? r_ip : r_bad); }
  return(v_def[cur] == 0 ? NULL : v_def[cur] == 1 ? r_def : r_bad);
}
int VP_STUB(Tcl_GetInt)(Tcl_Interp *ip, const char *s, int *v){
  (void)ip;
  if(s == r_bad) return(TCL_ERROR);
  *v = val[cur][s == r_name ? 0 : s == r_ip ? 1 : 2];
  return(TCL_OK);
}
void allowed(void){
  int i, st, failed = 0, expn = 0;
  ct.ce = ces;
  for(i = 0; i < NC; ++i){
    nm[i][0] = 'a'; ipa[i][0] = '1';
    hasname[i] = vp_nd_bool(); isclient[i] = vp_nd_bool(); created[i] = vp_nd_bool(); finished[i] = vp_nd_bool();
    v_name[i] = vp_nd_range(0, 2); v_ip[i] = vp_nd_range(0, 2); v_def[i] = vp_nd_range(0, 2); ex_fail[i] = vp_nd_bool();
    val[i][0] = vp_nd_int(); val[i][1] = vp_nd_int(); val[i][2] = vp_nd_int();
    fd[i].allow = 4242;
    ces[i].filterdata = &fd[i];
  }
  badset = vp_nd_bool();
  st = exec_net_filter(&sf, &ct);
  for(i = 0; i < NC; ++i){
    int a = fd[i].allow;
    VP_ASSERT(allow_filter_get_flag(&ces[i]) == a, "the decision is that of the client");
    if(!isclient[i] || !created[i] || finished[i] || failed){ VP_ASSERT(a == 4242, "only connected clients are decided about"); continue; }
    if(badset || ex_fail[i]){ failed = 1; VP_ASSERT(a == 4242, "no decision without the filter"); continue; }
    if(hasname[i] && v_name[i] == 1) VP_ASSERT(a == val[i][0], "the setting for the name comes first");
    else if(v_ip[i] == 1) VP_ASSERT(a == val[i][1], "then that for the address");
    else if(v_def[i] == 1) VP_ASSERT(a == val[i][2], "then the default of the filter");
    else VP_ASSERT(a == NETFILTER_ALLOW_DEFAULT, "then the built-in default");
    if(i == 1 && v_def[0] == 1 && v_def[1] == 0 && !(hasname[i] && v_name[i] == 1) && v_ip[i] != 1) VP_REACH("default absent after present");
    if(i == 1) VP_REACH("second");
  }
  VP_ASSERT((st != 0) == failed, "a filter that does not run is an error");
}
#endif
