/* products relayed by a master: src/slavenbs/framep.c, src/pctl.c, src/mfile.c */
#include "vp.h"
#include "globals.h"
#include "pctl.h"
#include "nbs1.h"
#include "vp_stats.h"
#include <stdarg.h>
#include <stddef.h>
int slavenbsproc(struct nbs1_packet_st *nbs);
int split_fbasename(struct pctl_element_st *pce);
struct nbsp_globals g;
/* names from a master; sizes scaled down */
static union { struct pctl_element_st e; char b[sizeof(struct pctl_element_st) + 40]; } pc;
static char exp_[40]; static int el;
static char uc(char c){ return(c >= 'a' && c <= 'z' ? c - 32 : c); }
/* the field is the piece from a to b of the name, in capitals if up */
static void piece(const char *f, const char *s, int a, int b, int max, int up){
  int k;
  VP_ASSERT(b - a <= max, "a name whose pieces are too long is refused");
  for(k = 0; k <= max; ++k){
    if(k < b - a) VP_ASSERT(f[k] == (up ? uc(s[a + k]) : s[a + k]), "the fields are the pieces of the name");
    if(k == b - a) VP_ASSERT(f[k] == '\0', "the fields are the pieces of the name");
  }
}
int VP_STUB(snprintf)(char *b, size_t size, const char *f, ...){
  /* the path is the directory, the station and the name */
  va_list ap;
  int o = 0, k;
  va_start(ap, f);
  for(; *f != '\0'; ++f){
    if(*f == '%'){
      const char *s = va_arg(ap, char*);
      ++f;
      VP_ASSERT(*f == 's', "the path is made of names");
      for(k = 0; k < 13 && s[k] != '\0'; ++k){ if(o < (int)size - 1) b[o] = s[k]; ++o; }
    }else{ if(o < (int)size - 1) b[o] = *f; ++o; }
  }
  if(size > 0) b[o < (int)size - 1 ? o : (int)size - 1] = '\0';
  va_end(ap);
  return(o);
}
void relayed_names(void){
  struct pctl_element_st *e = &pc.e;
  char *s = e->fbasename;
  int k, n, dot = -1, us = -1, sep = -1, sep2 = -1, slash = 0, st, room;
  char *fp = pc.b + __builtin_offsetof(struct pctl_element_st, fpath);
  g.spooldir = "/s";
  n = vp_nd_range(0, FBASENAME_SIZE);
  for(k = 0; k < FBASENAME_SIZE; ++k){
    int c = vp_nd_range(0, 7);
    s[k] = k < n ? "aB1.-+_/"[c] : '\0';
  }
  s[FBASENAME_SIZE] = '\0';
  room = vp_nd_bool() ? 30 : 12;
  e->fpath_size = room;
  for(k = FBASENAME_SIZE - 1; k >= 0; --k) if(k < n && s[k] == '.') dot = k;
  for(k = FBASENAME_SIZE - 1; k >= 0; --k) if(k < dot && s[k] == '_') us = k;
  for(k = 0; k < FBASENAME_SIZE; ++k) if(k < n && s[k] == '/') slash = 1;
  for(k = FBASENAME_SIZE - 1; k >= 0; --k) if(us >= 0 && k > us && k < dot && s[k] == FNAME_AWIPS_SEP_CHAR) sep = k;
  for(k = FBASENAME_SIZE - 1; k >= 0; --k) if(us >= 0 && k > us && k < dot && s[k] == FNAME_NOTAWIPS_SEP_CHAR) sep2 = k;
  st = split_fbasename(e);
  if(st != 0) return;
  VP_ASSERT(dot >= 0 && us >= 0, "a name without its separators is refused");
  VP_ASSERT(!slash, "a name with directories in it is refused");
  piece(e->fname, s, 0, dot, FNAME_SIZE, 0);
  piece(e->wmo_station, s, 0, us, WMO_STATION_SIZE, 1);
  if(sep >= 0){ piece(e->wmo_id, s, us + 1, sep, WMO_ID_SIZE, 1); piece(e->wmo_awips, s, sep + 1, dot, WMO_AWIPS_SIZE, 1); VP_ASSERT(e->wmo_notawips[0] == '\0', "absent fields are empty"); VP_REACH("awips"); }
  else if(sep2 >= 0){ piece(e->wmo_id, s, us + 1, sep2, WMO_ID_SIZE, 1); piece(e->wmo_notawips, s, sep2 + 1, dot, WMO_NOTAWIPS_SIZE, 1); VP_ASSERT(e->wmo_awips[0] == '\0', "absent fields are empty"); }
  else{ piece(e->wmo_id, s, us + 1, dot, WMO_ID_SIZE, 1); VP_ASSERT(e->wmo_awips[0] == '\0' && e->wmo_notawips[0] == '\0', "absent fields are empty"); }
  exp_[0] = '/'; exp_[1] = 's'; exp_[2] = '/'; 
  el = 3 + us + 1 + n;
  VP_ASSERT(el < room, "a path that does not fit is refused");
  for(k = 0; k < 3; ++k) VP_ASSERT(fp[k] == exp_[k], "the product stays in the spool");
  for(k = 0; k < 30; ++k){
    if(k >= 3 && k < 3 + us) VP_ASSERT(fp[k] == s[k - 3], "the product is under its station");
    if(k == 3 + us) VP_ASSERT(fp[k] == '/', "the product is under its station");
    if(k >= 4 + us && k <= el) VP_ASSERT(fp[k] == s[k - 4 - us], "the file has the name of the master's");
  }
}
