/* src/filters.c: the list of filters and the notifications sent to them */
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include "globals.h"
#include "packfpu.h"
#include "nbspq.h"
#include "filters.h"
struct nbsp_globals g;
extern struct filter_list_st gflist;
extern int get_sys_filters(char *flist, int type);
extern int e_reload_filters(void);
extern int e_get_filters(void);
extern void open_filters(void);
extern void sendto_filters(struct packet_info_st *p, int ms);
extern int process_filter_queue(void);
extern int init_filter_list(void);
extern struct packet_info_st gpacketinfo;

/* memory: names in one pool, the list in another, the copy of the text in a third */
#define NP 12
static char names[NP][8];
static struct filter_entry_st l1[1], l2[2], l4[4], l8[8];
static char copy_[12];
static int nnames, oom, oomat = -1, nal, want_copy, freed[NP], freecopy;
static int refuse(void){ if(nal++ == oomat){ oom = 1; return(1); } return(0); }
void *VP_STUB(malloc)(size_t n){
  if(refuse()) return(NULL);
  if(want_copy){ want_copy = 0; VP_ASSERT(n <= sizeof(copy_), "within the model"); return(copy_); }
  if(n == sizeof(struct filter_entry_st)) return(l1);
  VP_ASSERT(n <= 8 && nnames < NP, "within the model");
  return(names[nnames++]);
}
void *VP_STUB(realloc)(void *p, size_t n){
  int k;
  if(refuse()) return(NULL);
  if(p == l1){ VP_ASSERT(n == sizeof(l2), "room for two"); l2[0] = l1[0]; return(l2); }
  if(p == l2){ VP_ASSERT(n == sizeof(l4), "room for four"); for(k = 0; k < 2; ++k) l4[k] = l2[k]; return(l4); }
  VP_ASSERT(p == l4 && n == sizeof(l8), "room for eight"); for(k = 0; k < 4; ++k) l8[k] = l4[k]; return(l8);
}
void VP_STUB(free)(void *p){
  int k;
  if(p == NULL) return;
  if(p == copy_){ ++freecopy; return; }
  for(k = 0; k < NP; ++k) if(p == names[k]){ VP_ASSERT(freed[k] == 0, "a name is freed once"); freed[k] = 1; }
}
/* the world of the filters */
#define NF 2
static struct pfilter_st pf[NF];
static char fakefp[NF];
static char nm[NF][4] = {"a", "b"};
static int isopen[NF], canopen[NF], wres[NF], fres[NF], nwritten[NF], nopened[NF], nclosed[NF], order[8], norder, size_ok, nsize, mspool;
static char out[NF][64]; static int olen[NF], badline[NF];
static int pflush[NF], nprint[NF];
static struct packet_info_st pi;
static char pkt[4], pfname[3] = "nm", pfpath[4] = "/p";
static int who(const char *f){ return(f[0] == 'a' ? 0 : 1); }
static int whofp(FILE *f){ return(f == (FILE*)&fakefp[0] ? 0 : 1); }
static void turn(int w){ if(norder == 0 || order[norder - 1] != w){ VP_ASSERT(norder < 8, "within the model"); order[norder++] = w; } }
int VP_STUB(open)(const char *f, int fl, ...){
  int w = who(f);
  VP_ASSERT((fl & O_ACCMODE) == O_WRONLY && (fl & O_NONBLOCK) != 0, "a fifo is opened for writing without waiting");
  turn(w); ++nopened[w];
  VP_ASSERT(!isopen[w], "a filter is not opened twice");
  if(!canopen[w]){ errno = canopen[w] == 0 ? ENXIO : EACCES; return(-1); }
  if(canopen[w] == 2){ errno = EACCES; return(-1); }
  isopen[w] = 1;
  return(10 + w);
}
int VP_STUB(close)(int fd){
  int w = fd - 10;
  VP_ASSERT(w >= 0 && w < NF && isopen[w], "an open fifo is closed");
  isopen[w] = 0; ++nclosed[w];
  return(0);
}
ssize_t VP_STUB(writem)(int fd, void *b, size_t n, unsigned int ms, int retry){
  int w = fd - 10;
  VP_ASSERT(w >= 0 && w < NF && isopen[w], "an open fifo is written");
  VP_ASSERT(b == pkt && n == 4 && ms == 77 && retry == 0, "a fifo is given the whole packet");
  turn(w); ++nwritten[w];
  return(wres[w] == 0 ? 4 : wres[w] == 1 ? -1 : wres[w] == 2 ? 2 : 0);
}
struct pfilter_st *VP_STUB(pfilter_open)(char *s){
  int w = who(s);
  turn(w); ++nopened[w];
  VP_ASSERT(!isopen[w], "a filter is not opened twice");
  if(canopen[w] != 1) return(NULL);
  isopen[w] = 1; pf[w].fp = (FILE*)&fakefp[w];
  return(&pf[w]);
}
void VP_STUB(pfilter_close)(struct pfilter_st *p){
  int w = (p == &pf[0] ? 0 : 1);
  VP_ASSERT(isopen[w], "an open filter is closed");
  isopen[w] = 0; ++nclosed[w];
}
int VP_STUB(pfilter_flush)(struct pfilter_st *p){
  int w = (p == &pf[0] ? 0 : 1);
  VP_ASSERT(isopen[w], "an open filter is flushed");
  ++pflush[w];
  return(fres[w] ? -1 : 0);
}
static int put(FILE *f, const char *s, int n){
  int w = whofp(f), k;
  VP_ASSERT(isopen[w], "an open filter is written");
  turn(w);
  if(wres[w] && nprint[w]++ >= wres[w] - 1){ badline[w] = 1; return(-1); }
  if(pflush[w]){ pflush[w] = 0; }
  for(k = 0; k < n; ++k) if(olen[w] < 63) out[w][olen[w]++] = s[k];
  return(n);
}
int VP_STUB(fprintf)(FILE *f, const char *fmt, ...){
  static char tmp[64];
  int n;
  va_list ap;
  va_start(ap, fmt);
  n = vsnprintf(tmp, 64, fmt, ap);
  va_end(ap);
  return(put(f, tmp, n));
}
int VP_STUB(spooltype_mspool)(void){ return(mspool); }
int VP_STUB(nbsp_mspoolbdb_fpathsize)(char *f, size_t *s){
  VP_ASSERT(f == pfpath, "the size is that of the product");
  ++nsize; if(!size_ok) return(1);
  *s = 123; return(0);
}
/* not used here */
static int rcv; static void *rpacket = pkt;
int VP_STUB(e_nbspq_rcv_filter)(void **p, size_t *n){ VP_ASSERT(*p == pkt && *n == 4, "the packet goes to the memory of the filters"); return(rcv); }
static int unp;
int VP_STUB(nbsfp_unpack_fpath)(struct packet_info_st *p){ VP_ASSERT(rcv == 0, "only a packet from the queue is used"); *p = pi; return(unp); }
int VP_STUB(nbsfp_packetinfo_init)(struct packet_info_st *p){ (void)p; return(0); }
void VP_STUB(nbsfp_packetinfo_cleanup)(struct packet_info_st *p){ (void)p; }
int VP_STUB(get_quit_flag)(void){ return(0); }
void VP_STUB(set_quit_flag)(void){ }

#ifdef LIST
#ifndef N
#define N 5
#define NCODE 243
#endif
static char text[N + 1];
static char tok[N][N + 1];
static int ntok;
static int same(const char *a, const char *b){ int k; for(k = 0; k <= N; ++k){ if(a[k] != b[k]) return(0); if(a[k] == '\0') return(1); } return(1); }
static void run(int len, int code){
  int k, j, st, m = 0, t = 0, dup, d = 0, digit;
  static const char sep[3] = {':', ' ', '\t'};
  for(k = 0; k < len; ++k){
    digit = code % 3; code /= 3;
    if(digit == 0){ text[k] = sep[(k + len) % 3]; if(m){ tok[t++][m] = '\0'; m = 0; } }
    else{ text[k] = (digit == 1) ? 'a' : (char)('b' + k); tok[t][m++] = text[k]; }
  }
  text[len] = '\0';
  if(m) tok[t++][m] = '\0';
  want_copy = 1;
  st = get_sys_filters(text, FILTER_TYPE_PIPE);
  VP_ASSERT(text[len] == '\0', "the setting is not changed");
  for(k = 0; k < t; ++k){
    dup = 0;
    for(j = 0; j < k; ++j) if(same(tok[k], tok[j])) dup = 1;
    if(dup) continue;
    VP_ASSERT(d < gflist.n || oom, "every filter named is in the list");
    if(d < gflist.n){
      VP_ASSERT(gflist.filters[d].fname != NULL && gflist.filters[d].type == FILTER_TYPE_PIPE && gflist.filters[d].fd == -1 && gflist.filters[d].pfp == NULL, "its entry is complete");
      if(gflist.filters[d].fname != NULL) VP_ASSERT(same(gflist.filters[d].fname, tok[k]), "the filters are those named, once each and in order");
      VP_ASSERT(gflist.filters[d].stats.files_sent == 0 && gflist.filters[d].stats.errors == 0, "its counts start at zero");
      ++d;
    }
  }
  VP_ASSERT(d == gflist.n, "only the filters named are in the list");
  for(k = 0; k < 8; ++k) if(k >= d && k < gflist.nmax) VP_ASSERT(gflist.filters[k].fname == NULL, "the rest is empty");
  VP_ASSERT((st == 0) == !oom, "lack of memory is reported");
#ifndef NOREACH
#ifndef FAULTS
  if(d == 3) VP_REACH("three filters");
#endif
  if(t == 3 && d == 2) VP_REACH("a filter named twice");
#endif
#ifdef FAULTS
  if(oom && d == 1) VP_REACH("no memory after one");
#endif
}
/* position by position a separator, a letter that may repeat, or one that does not: all the combinations */
void filterlist(void){
  int w = vp_nd_range(0, NCODE - 1), k;
#ifdef FAULTS
  int o = vp_nd_range(1, 7);
#endif
  if(init_filter_list() != 0) return;
  for(k = 0; k < NCODE; ++k) if(w == k ONLY){
#ifdef FAULTS
    int q;
    for(q = 1; q <= 7; ++q) if(o == q){ oomat = q; run(N, k); VP_DONE(); }
#else
    run(N, k);
#endif
    VP_DONE();
  }
}
#else
static struct filter_entry_st ents[4];
static int typ[NF], wasopen[NF], files0[NF], errs0[NF];
static void setup(int holes){
  int k, i;
  for(i = 0; i < 4; ++i){ ents[i].fd = -1; ents[i].pfp = NULL; ents[i].type = FILTER_TYPE_NONE; ents[i].fname = NULL; }
  for(k = 0; k < NF; ++k){
    i = holes ? 2*k + 1 : k;
    ents[i].fname = nm[k]; ents[i].type = typ[k];
    wasopen[k] = vp_nd_bool(); isopen[k] = wasopen[k];
    if(isopen[k]){ if(typ[k] == FILTER_TYPE_FIFO) ents[i].fd = 10 + k; else { ents[i].pfp = &pf[k]; pf[k].fp = (FILE*)&fakefp[k]; } }
    canopen[k] = vp_nd_range(0, 2);
    files0[k] = ents[i].stats.files_sent = 5 + k; errs0[k] = ents[i].stats.errors = k;
  }
  gflist.filters = ents; gflist.nmax = holes ? 4 : 2; gflist.n = NF;
}
static char line1[] = "4294967295 -128 127 0 3 nm /p", line2[] = "0 1 2 3 4 nm /p";
static void expline(int w, int num){
  const char *e = num ? line1 : line2, *t = !mspool ? "\n" : size_ok ? " 123\n" : " 0\n";
  int k, m = 0;
  for(k = 0; e[k]; ++k) VP_ASSERT(out[w][m++] == e[k], "the line names the product");
  for(k = 0; t[k]; ++k) VP_ASSERT(out[w][m++] == t[k], "the line is complete");
  VP_ASSERT(olen[w] == m, "one line and no more is written");
}
static void run(int t0, int t1, int holes, int num, int viaq){
  int k, i, fail, nopen;
  typ[0] = t0; typ[1] = t1;
  setup(holes);
  for(k = 0; k < NF; ++k){ wres[k] = vp_nd_range(0, 3); fres[k] = vp_nd_bool(); }
  size_ok = vp_nd_bool();
  pi.packet = pkt; pi.packet_size = 4; pi.fname = pfname; pi.fpath = pfpath;
  if(num){ pi.seq_number = 4294967295U; pi.psh_product_type = -128; pi.psh_product_category = 127; pi.psh_product_code = 0; pi.np_channel_index = 3; }
  else{ pi.seq_number = 0; pi.psh_product_type = 1; pi.psh_product_category = 2; pi.psh_product_code = 3; pi.np_channel_index = 4; }
  if(viaq){
    int st;
    g.fifo_write_timeout_ms = 77;
    gpacketinfo = pi; rcv = vp_nd_range(-1, 1); unp = vp_nd_range(-1, 1);
    st = process_filter_queue();
    if(rcv != 0 || unp != 0){
      VP_ASSERT(norder == 0 && nwritten[0] == 0 && olen[0] == 0 && olen[1] == 0, "nothing is sent without a product");
      VP_ASSERT((st == 0) == (rcv == 1), "an error of the queue is reported");
      if(rcv == 0) VP_ASSERT(vp_log_count >= 1, "a bad packet is reported");
      return;
    }
    VP_ASSERT(st == 0, "the product was processed");
  }else
    sendto_filters(&pi, 77);
  for(k = 0; k < NF; ++k){
    i = holes ? 2*k + 1 : k;
    nopen = !wasopen[k] && canopen[k] != 1;
    VP_ASSERT(gflist.filters[i].fname == nm[k] && gflist.filters[i].type == typ[k], "the filter stays in the list");
    VP_ASSERT(nopened[k] == !wasopen[k], "a closed filter is opened, an open one is not");
    if(nopen) fail = 1;
    else if(typ[k] == FILTER_TYPE_FIFO){
      fail = wres[k] != 0;
      VP_ASSERT(nwritten[k] == 1, "the product is sent once to each fifo");
    }else{
      fail = badline[k] || fres[k];
      if(!badline[k]){ expline(k, num); VP_ASSERT(pflush[k] == 1, "the line is passed on at once"); }
    }
    VP_ASSERT(isopen[k] == !fail, "a filter which failed is closed, the others stay open");
    VP_ASSERT((gflist.filters[i].fd != -1) == (isopen[k] && typ[k] == FILTER_TYPE_FIFO) && (gflist.filters[i].pfp != NULL) == (isopen[k] && typ[k] == FILTER_TYPE_PIPE), "the entry says whether it is open");
    VP_ASSERT(gflist.filters[i].stats.files_sent == (unsigned)files0[k] + 1 && gflist.filters[i].stats.errors == (unsigned)(errs0[k] + fail), "products and errors are counted");
    if(fail) VP_ASSERT(vp_log_count >= 1, "a failure is reported");
  }
  VP_ASSERT(norder == 2 && order[0] == 0 && order[1] == 1, "the filters are served in the order of the list");
  VP_ASSERT(gflist.n == NF, "no filter is lost");
  if(isopen[1] && !isopen[0]) VP_REACH("the second goes on when the first fails");
  if(isopen[0] && !wasopen[0]) VP_REACH("opened");
}
#ifdef SEND
void sendall(void){
  int c = vp_nd_range(0, 3);
  mspool = MSPOOL;
  if(c == 0){ run(FILTER_TYPE_FIFO, FILTER_TYPE_PIPE, 0, 0, 0); VP_DONE(); }
  if(c == 1){ run(FILTER_TYPE_PIPE, FILTER_TYPE_FIFO, 1, 1, 0); VP_DONE(); }
  if(c == 2){ run(FILTER_TYPE_PIPE, FILTER_TYPE_PIPE, 1, 1, 1); VP_DONE(); }
  if(c == 3){ run(FILTER_TYPE_FIFO, FILTER_TYPE_FIFO, 0, 0, 1); VP_DONE(); }
}
#else
/* opening at the start and reloading; the directory has no entries or one new one */
static char empty[] = "", list1[] = "a";
static int hasdir, nent, kind, statfail, closeddir;
static struct dirent de; static char dirobj;
int VP_STUB(dir_exists)(char *d){ (void)d; return(hasdir ? 0 : 1); }
DIR *VP_STUB(opendir)(const char *d){ (void)d; return((DIR*)&dirobj); }
struct dirent *VP_STUB(readdir)(DIR *d){ (void)d; if(nent++ == 0 && kind){ de.d_name[0] = 'z'; de.d_name[1] = '\0'; return(&de); } return(NULL); }
int VP_STUB(closedir)(DIR *d){ (void)d; ++closeddir; return(0); }
int VP_STUB(stat)(const char *f, struct stat *sb){
  VP_ASSERT(f[0] == 'b' && f[1] == '/' && f[2] == 'z' && f[3] == '\0', "the entry of the directory is examined");
  if(statfail) return(-1);
  sb->st_mode = kind == 1 ? S_IFIFO : kind == 2 ? S_IFREG | S_IXUSR : kind == 3 ? S_IFREG : S_IFDIR | S_IXUSR;
  return(0);
}
static char bdir[] = "b";
static int find(char c){ int i, r = -1; for(i = 0; i < 4; ++i) if(i < gflist.nmax && gflist.filters[i].fname != NULL && gflist.filters[i].fname[0] == c){ VP_ASSERT(r == -1, "each filter is once in the list"); r = i; } return(r); }
/* a: from the list or not; b/z from the directory (its name starts with b) */
static void reload(int inlist, int kd, int sf){
  int st, a, b, keepa, newb, i;
  typ[0] = FILTER_TYPE_FIFO; typ[1] = FILTER_TYPE_PIPE;
  setup(0);
  /* the first is a fifo found before, the second a program */
  g.sysfilterlist = inlist ? list1 : empty; g.filterdevdir = bdir; hasdir = 1; kind = kd; statfail = sf;
  wasopen[0] = wasopen[0];
  st = e_reload_filters();
  VP_ASSERT(closeddir == 1, "the directory is closed");
  VP_ASSERT(st == 0 || statfail, "reloaded");
  a = find('a'); b = find('b');
  keepa = wasopen[0] || canopen[0] == 1;
  newb = !statfail && (kind == 1 || kind == 2) && canopen[1] == 1;
  VP_ASSERT((a >= 0) == keepa && (b >= 0) == newb, "those which cannot be opened or are not there any more are removed, the rest are there");
  if(a >= 0){
    VP_ASSERT(gflist.filters[a].type == FILTER_TYPE_FIFO && gflist.filters[a].fd == 10 && isopen[0], "a fifo stays as it was");
    VP_ASSERT(nclosed[0] == 0 && nopened[0] == !wasopen[0], "an open fifo is not closed");
  }
  if(b >= 0) VP_ASSERT(isopen[1] && gflist.filters[b].type == (kind == 1 ? FILTER_TYPE_FIFO : FILTER_TYPE_PIPE), "a new filter is opened as what it is");
  else VP_ASSERT(!isopen[1], "what is removed is closed");
  if(wasopen[1]) VP_ASSERT(nclosed[1] == 1, "programs are started again");
  for(i = 0; i < 4; ++i) if(i < gflist.nmax && i != a && i != b) VP_ASSERT(gflist.filters[i].fname == NULL && gflist.filters[i].fd == -1 && gflist.filters[i].pfp == NULL && gflist.filters[i].type == FILTER_TYPE_NONE, "the rest is empty");
  VP_ASSERT(gflist.n == (a >= 0) + (b >= 0), "the number of filters is right");
  if(b >= 0 && a >= 0) VP_REACH("both");
  if(a < 0 && b < 0) VP_REACH("none");
}
void reloads(void){
  int c = vp_nd_range(0, 5);
  if(c == 0){ reload(0, 0, 0); VP_DONE(); }
  if(c == 1){ reload(0, 1, 0); VP_DONE(); }
  if(c == 2){ reload(1, 2, 0); VP_DONE(); }
  if(c == 3){ reload(0, 3, 0); VP_DONE(); }
  if(c == 4){ reload(0, 4, 0); VP_DONE(); }
  if(c == 5){ reload(1, 1, 1); VP_DONE(); }
}
#endif
#endif
