/* product names: src/framep.c */
#include "vp.h"
#include "globals.h"
#include "framep.h"
#include "nbsp.h"
struct nbsp_globals g;
void make_product_fname(char *fname, char *wmo_id, char *wmo_station, char *wmo_awips, char *wmo_notawips, int producttype);
int make_product_fbasename(struct pctl_element_st *pce);
int make_product_fpath(struct pctl_element_st *pce);
static union { char b[sizeof(struct pctl_element_st) + 96]; long l; } pc;
static char exp_[96];
static int el;
static char lc(char c){ return(c >= 'A' && c <= 'Z' ? c + 32 : c); }
static void put(const char *s, int lower){ int k; for(k = 0; s[k] != '\0'; ++k) exp_[el++] = lower ? lc(s[k]) : s[k]; }
static const char *tab[3] = {"ABCDEFGHIJ", "q7Rs8Tu9Vw", "0123456789"};
static int symf, symp;          /* the field and the place of the character left open */
static void alnum(char *p, int f, int n){
  int k;
  for(k = 0; k < n; ++k) p[k] = tab[(f + k)%3][(f + 2*k)%10];
  if(f == symf && symp < n){
    char c = (char)vp_nd_u8();
    VP_ASSUME((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'));
    p[symp] = c;
  }
  p[n] = '\0';
}
static void same(const char *p, const char *msg, int max){
  int k;
  (void)msg;
  for(k = 0; k <= max; ++k) if(k <= el) VP_ASSERT(p[k] == (k == el ? '\0' : exp_[k]), "the name is that of the identity");
}
#ifndef LETTERS
static void run(int ns, int ni, int na, int nn, unsigned int seq, const char *seqs, int dirlen, int room){
  struct pctl_element_st *e = (struct pctl_element_st*)pc.b;
  static char dir[] = "/spool/dirs";
  char *fp = pc.b + __builtin_offsetof(struct pctl_element_st, fpath);
  int k, st, full;
  alnum(e->wmo_station, 0, ns); alnum(e->wmo_id, 1, ni); alnum(e->wmo_awips, 2, na); alnum(e->wmo_notawips, 3, nn);
  alnum(e->wmo_time, 4, 6);
  e->seq_number = seq;
  for(k = 0; k < FNAME_SIZE + 1; ++k) e->fname[k] = 'x';
  make_product_fname(e->fname, e->wmo_id, e->wmo_station, e->wmo_awips, e->wmo_notawips, vp_nd_int());
  el = 0;
  put(e->wmo_station, 1); exp_[el++] = '_'; put(e->wmo_id, 1);
  if(na > 0){ exp_[el++] = '-'; put(e->wmo_awips, 1); }
  else if(nn > 0){ exp_[el++] = '+'; put(e->wmo_notawips, 1); }
  VP_ASSERT(el <= FNAME_SIZE, "the name fits");
  same(e->fname, "", FNAME_SIZE);
  for(k = 0; k < FBASENAME_SIZE + 1; ++k) e->fbasename[k] = 'x';
  exp_[el++] = '.'; put(e->wmo_time, 0); exp_[el++] = '_'; put(seqs, 0);
  VP_ASSERT(el <= FBASENAME_SIZE, "the base name fits");
  VP_ASSERT(make_product_fbasename(e) == 0, "a base name can always be made");
  same(e->fbasename, "", FBASENAME_SIZE);
  /* the path */
  dir[dirlen] = '\0';
  g.spooldir = dir;
  for(k = 0; k < 60; ++k) fp[k] = 'G';
  full = dirlen + 1 + ns + 1 + el;
  e->fpath_size = room < 0 ? 0 : full + room;
  VP_ASSERT(full <= const_fpath_maxsize(), "the longest path foreseen holds every path");
  st = make_product_fpath(e);
  VP_ASSERT((st == 0) == (full < e->fpath_size), "a path that does not fit is reported");
  for(k = 0; k < 60; ++k) if(k >= e->fpath_size) VP_ASSERT(fp[k] == 'G', "nothing beyond the room for the path is written");
  if(st == 0){
    int j;
    for(j = 0; j < dirlen; ++j) VP_ASSERT(fp[j] == dir[j], "the path starts with the spool directory");
    VP_ASSERT(fp[dirlen] == '/' && fp[dirlen + 1 + ns] == '/', "the product is under its station");
    for(j = 0; j < ns; ++j) VP_ASSERT(fp[dirlen + 1 + j] == lc(e->wmo_station[j]), "the product is under its station");
    for(j = 0; j < el; ++j) VP_ASSERT(fp[dirlen + 2 + ns + j] == exp_[j], "the file has the base name");
    VP_ASSERT(fp[full] == '\0', "the path is complete");
    VP_REACH("fits");
  }else
    VP_REACH("does not fit");
}
#endif
#ifndef LETTERS
static void concrete(int room){
  symf = 9;
  switch(vp_nd_range(0, 5)){
  case 0: run(4, 6, 6, 0, 4294967295U, "4294967295", 9, room); break;
  case 1: run(4, 5, 0, 3, 0, "0", 3, room); break;
  case 2: run(4, 6, 0, 6, 3298904U, "3298904", 9, room); break;
  case 3: run(3, 6, 4, 0, 2147483648U, "2147483648", 1, room); break;
  case 4: run(4, 4, 0, 0, 10U, "10", 5, room); break;
  default: run(4, 6, 5, 3, 99U, "99", 2, room); break;
  }
}
void names(void){
  switch(vp_nd_range(0, 3)){ case 0: concrete(-1); break; case 1: concrete(0); break; case 2: concrete(1); break; default: concrete(4); break; }
}
#else
static void frun(int f, int pl, int ns, int ni, int na, int nn){
  struct pctl_element_st *e = (struct pctl_element_st*)pc.b;
  int k;
  symf = f; symp = pl;
  alnum(e->wmo_station, 0, ns); alnum(e->wmo_id, 1, ni); alnum(e->wmo_awips, 2, na); alnum(e->wmo_notawips, 3, nn);
  for(k = 0; k < FNAME_SIZE + 1; ++k) e->fname[k] = 'x';
  make_product_fname(e->fname, e->wmo_id, e->wmo_station, e->wmo_awips, e->wmo_notawips, 0);
  el = 0;
  put(e->wmo_station, 1); exp_[el++] = '_'; put(e->wmo_id, 1);
  if(na > 0){ exp_[el++] = '-'; put(e->wmo_awips, 1); }
  else if(nn > 0){ exp_[el++] = '+'; put(e->wmo_notawips, 1); }
  same(e->fname, "", FNAME_SIZE);
  VP_REACH("named");
}
void letters(void){
  switch(vp_nd_range(0, 3)){
  case 0: frun(0, 3, 4, 6, 6, 0); break;
  case 1: frun(1, 5, 4, 6, 0, 3); break;
  case 2: frun(2, 5, 4, 6, 6, 0); break;
  default: frun(3, 2, 4, 6, 0, 3); break;
  }
}
#endif
