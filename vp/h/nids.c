/* radar product tools: filters/filterlib/c/dcnids */
#include <stdio.h>
#include <unistd.h>
#include <time.h>
#include <stdarg.h>
#include "vp.h"
#include "const.h"
#include "err.h"
#include "dcnids.h"
#include "dcnids_header.h"
#include "dcnids_decode.h"
#include "dcnids_shp.h"

/* a fatal error report ends the program: is one due? */
static int err_ok, err_seen;
static void fatal(int e){
  err_seen = 1;
  if(e != 0){
    VP_ASSERT(err_ok, "a correct product is not rejected");
#ifdef FAULTS
    VP_REACH("rejected");
#endif
    VP_DONE();
  }
}
void VP_STUB(log_errx)(int e, char *f, ...){ (void)f; fatal(e); }
void VP_STUB(log_err)(int e, char *f, ...){ (void)f; fatal(e); }
void VP_STUB(log_err_open)(char *f){ (void)f; fatal(1); }
void VP_STUB(log_warnx)(char *f, ...){ (void)f; }

#define NB (WMOAWIPS_HEADER_SIZE + NIDS_HEADER_SIZE)
static struct nids_header_st nh;

#ifdef HEADER
static struct tm vtm; static long long tm_arg; static int tm_calls;
struct tm *VP_STUB(gmtime_r)(const time_t *t, struct tm *r){ tm_arg = (long long)*t; ++tm_calls; *r = vtm; return(r); }
static unsigned int u8(int i){ return(nh.buffer[i]); }
static unsigned int u16(int i){ return(u8(i)*256u + u8(i + 1)); }
static unsigned int u32(int i){ return(u16(i)*65536u + u16(i + 2)); }
static int s16(int i){ int v = (int)u16(i); return(v >= 32768 ? v - 65536 : v); }
/* the offset of a halfword of the product: they are counted from 1 after the text headers */
#define HW(n) (WMOAWIPS_HEADER_SIZE + 2*((n) - 1))
void nids_header(void){
  int r, i, ok = 1, up = 0;
  vp_nd_bytes(nh.buffer, NB);
  vtm.tm_year = vp_nd_range(-100, 10000); vtm.tm_mon = vp_nd_range(0, 11); vtm.tm_mday = vp_nd_range(1, 31);
  vtm.tm_hour = vp_nd_range(0, 23); vtm.tm_min = vp_nd_range(0, 59); vtm.tm_sec = vp_nd_range(0, 60);
  r = dcnids_decode_header(&nh);
  for(i = 0; i < WMO_AWIPS_SIZE; ++i){
    int c = nh.buffer[CTRLHDR_WMO_SIZE + i];
    if(c >= 'A' && c <= 'Z'){ c += 32; up = 1; }
    if(c < 128 && (unsigned char)nh.awipsid[i] != c) ok = 0;
  }
  VP_ASSERT(ok && nh.awipsid[WMO_AWIPS_SIZE] == 0, "the product name is the one of the text header, in lower case");
  VP_ASSERT(nh.m_code == (int)u16(HW(1)) && nh.m_days == (int)u16(HW(2)) - 1 && nh.m_seconds == u32(HW(3)), "the code and the time of the message are at their documented places");
  VP_ASSERT(nh.m_msglength == u32(HW(5)) && nh.m_source == (int)u16(HW(7)) && nh.m_destination == (int)u16(HW(8)) && nh.m_numblocks == (int)u16(HW(9)), "the length, source, destination and number of blocks are at their documented places");
  VP_ASSERT((r == 0) == (s16(HW(10)) == -1), "a header is accepted exactly when the divider is there");
  VP_ASSERT(nh.pdb_lat == (int)u32(HW(11)) && nh.pdb_lon == (int)u32(HW(13)), "the place of the radar is the documented one, with its sign");
  VP_ASSERT(nh.lat == nh.pdb_lat/1000.0 && nh.lon == nh.pdb_lon/1000.0, "the place is in degrees");
  VP_ASSERT(nh.pdb_height == (int)u16(HW(15)) && nh.pdb_code == (int)u16(HW(16)) && nh.pdb_mode == (int)u16(HW(17)), "the height, product code and mode are at their documented places");
  VP_ASSERT(nh.pdb_version == (int)u8(HW(54)) && nh.pdb_symbol_block_offset == u32(HW(55))*2u && nh.pdb_graphic_block_offset == u32(HW(57))*2u && nh.pdb_tabular_block_offset == u32(HW(59))*2u,
	    "the version and the offsets of the blocks are at their documented places");
  VP_ASSERT((long long)nh.unixseconds == 86400LL*((long long)u16(HW(2)) - 1) + (long long)u32(HW(3)), "the time is the number of days and seconds of the header");
  VP_ASSERT(tm_calls == 1 && tm_arg == (long long)nh.unixseconds && nh.year == vtm.tm_year + 1900 && nh.month == vtm.tm_mon + 1 && nh.day == vtm.tm_mday && nh.hour == vtm.tm_hour && nh.min == vtm.tm_min && nh.sec == vtm.tm_sec,
	    "the calendar date is the one of that time");
  if(r == 0 && up) VP_REACH("accepted"); 
  if(r != 0) VP_REACH("rejected");
}
#endif

#ifdef READ
#define MAXF (CCB_SIZE + GMPK_HEADER_SIZE + NB)
static unsigned char file[MAXF]; static int pos, ncalls, badcall, badval;
/* the reads return what is asked for, except one: it fails (-1), or there is nothing (0) or a part (1) left */
ssize_t VP_STUB(read)(int fd, void *b, size_t n){
  int i;
  VP_ASSERT(fd == 7, "the file is read");
  if(ncalls++ == badcall){
    if(badval == -1){ errno = EIO; return(-1); }
    return(badval == 1 && n > 1 ? (ssize_t)n - 1 : 0);
  }
  VP_ASSERT(pos + (int)n <= MAXF, "not more than the header is read");
  if(pos + (int)n > MAXF) return(0);
#ifndef VP_NATIVE
  if(__CPROVER_same_object(b, &nh))     /* what is skipped does not matter */
#endif
    for(i = 0; i < (int)n; ++i) ((unsigned char*)b)[i] = file[pos + i];
  pos += n;
  return(n);
}
static void run(int skip, int gempak, int bad, int val){
  int r, i, ok = 1, hs = skip + (gempak ? GMPK_HEADER_SIZE : 0);
  badcall = bad; badval = val;
  if(gempak) file[skip] = 1;
  else file[skip] = skip == 1 ? '9' : 'S';
  r = dcnids_read_header(7, skip, &nh);
  if(bad < ncalls){
    VP_ASSERT(r != 0, "a short or unreadable header is an error");
    if(val == -1) VP_ASSERT(r == -1, "a failure to read is told from a short file");
    VP_REACH("error"); 
    return;
  }
  VP_ASSERT(r == 0, "a whole header is accepted");
  for(i = 0; i < NB; ++i) if(nh.buffer[i] != file[hs + i]) ok = 0;
  VP_ASSERT(ok && pos == hs + NB, "the header read is the one of the product, whatever goes before it");
  VP_REACH("ok");
}
#define CASES(s, g) \
  if(k == 0){ run(s, g, 9, 0); VP_DONE(); } \
  if(k == 1){ run(s, g, 0, -1); VP_DONE(); } \
  if(k == 2){ run(s, g, 0, 0); VP_DONE(); } \
  if(k == 3){ run(s, g, 1, -1); VP_DONE(); } \
  if(k == 4){ run(s, g, 1, 0); VP_DONE(); } \
  if(k == 5){ run(s, g, 1, 1); VP_DONE(); } \
  if(k == 6){ run(s, g, 2, -1); VP_DONE(); } \
  if(k == 7){ run(s, g, 2, 1); VP_DONE(); } \
  if(k == 8){ run(s, g, 3, 1); VP_DONE(); } \
  VP_DONE();
void nids_read(void){
  int k = vp_nd_range(0, 8), w = vp_nd_range(0, 4);
  vp_nd_bytes(file, MAXF);
  if(w == 0){ CASES(0, 0) }
  if(w == 1){ CASES(0, 1) }
  if(w == 2){ CASES(CCB_SIZE, 0) }
  if(w == 3){ CASES(CCB_SIZE, 1) }
  if(w == 4){ CASES(1, 0) }
}
#endif

#ifdef BBOX
#ifndef NP
# define NP 2
#endif
static struct dcnids_polygon_map_st pm; static struct dcnids_polygon_st po[NP];
void bbox(void){
  int i, j, n, in = 1, w = 0, e = 0, s = 0, t = 0;
  n = vp_nd_range(1, NP);
  for(i = 0; i < NP; ++i) for(j = 0; j < 4; ++j){
    uint64_t u = vp_nd_u64(), v = vp_nd_u64();
    memcpy(&po[i].lon[j], &u, 8); memcpy(&po[i].lat[j], &v, 8);
    VP_ASSUME(po[i].lon[j] >= -180.0 && po[i].lon[j] <= 180.0 && po[i].lat[j] >= -90.0 && po[i].lat[j] <= 90.0);
  }
  { uint64_t u = vp_nd_u64(); memcpy(&pm.lat_max, &u, 8); memcpy(&pm.lat_min, &u, 8); memcpy(&pm.lon_max, &u, 8); memcpy(&pm.lon_min, &u, 8); }
  pm.polygons = po; pm.numpolygons = n;
  dcnids_polygonmap_bb(&pm);
  for(i = 0; i < n; ++i) for(j = 0; j < 4; ++j){
    if(!(po[i].lon[j] >= pm.lon_min && po[i].lon[j] <= pm.lon_max && po[i].lat[j] >= pm.lat_min && po[i].lat[j] <= pm.lat_max)) in = 0;
    if(po[i].lon[j] == pm.lon_min) w = 1;
    if(po[i].lon[j] == pm.lon_max) e = 1;
    if(po[i].lat[j] == pm.lat_min) s = 1;
    if(po[i].lat[j] == pm.lat_max) t = 1;
  }
  VP_ASSERT(in, "every vertex is inside of the box");
  VP_ASSERT(w && e && s && t, "each side of the box goes through a vertex");
  VP_REACH("box");
}
#endif

#ifdef SHAPES
#ifndef NP
# define NP 2
#endif
#include <fcntl.h>
static struct dcnids_polygon_map_st pm; static struct dcnids_polygon_st po[NP];
static struct dcnids_shp_st st_area; static unsigned char area[2*100 + NP*(136 + 8)];
static unsigned char out[2][100 + NP*136]; static int outn[2], closed[2], mallocs, sum, nomem, failo, failw, shortw, opens;
void *VP_STUB(malloc)(size_t n){
  if(++mallocs == nomem) return(NULL);
  if(mallocs == 1) return(&st_area);
  VP_ASSERT(n <= sizeof(area), "the room is the one needed"); sum = (int)n; return(area); }
void VP_STUB(free)(void *p){ VP_ASSERT(p == (void*)&st_area || p == (void*)area, "freed"); }
int VP_STUB(open)(const char *p, int fl, ...){
  int k = (p[0] == 'x');
  VP_ASSERT((fl & O_TRUNC) && (fl & O_CREAT), "an old file is replaced");
  if(++opens == failo) return(-1);
  return(10 + k); }
int VP_STUB(close)(int fd){ VP_ASSERT(fd == 10 || fd == 11, "closed"); ++closed[fd - 10]; return(0); }
ssize_t VP_STUB(write)(int fd, const void *b, size_t n){
  int i, k = fd - 10;
  VP_ASSERT(fd == 10 || fd == 11, "written");
  VP_ASSERT(n <= sizeof(out[0]), "not more than the records are written");
  if(k + 1 == failw) return(-1);
  if(k + 1 == shortw) return(n/2);
  for(i = 0; i < (int)n; ++i) out[k][outn[k]++] = ((unsigned char*)b)[i];
  return(n); }
static unsigned int be(unsigned char *p){ return(((unsigned)p[0] << 24) | (p[1] << 16) | (p[2] << 8) | p[3]); }
static unsigned int le(unsigned char *p){ return(((unsigned)p[3] << 24) | (p[2] << 16) | (p[1] << 8) | p[0]); }
static int isd(unsigned char *p, double *d){ return(memcmp(p, d, 8) == 0); }
static int file_header(unsigned char *p, int len){
  return(be(p) == 9994 && be(p + 24)*2 == (unsigned)len && le(p + 28) == 1000 && le(p + 32) == 5
	 && isd(p + 36, &pm.lon_min) && isd(p + 44, &pm.lat_min) && isd(p + 52, &pm.lon_max) && isd(p + 60, &pm.lat_max)); }
static void run(int n){
  int i, j, r, off = 100, ok;
  double mn, mx;
  pm.numpolygons = n;
  r = dcnids_shp_write("p", "x", &pm);
  err_ok = 1;
  if(nomem || failo || failw || shortw){ VP_ASSERT(r != 0, "a failure is reported"); return; }
  VP_ASSERT(r == 0 && closed[0] == 1 && closed[1] == 1, "the files are written and closed");
  VP_ASSERT(outn[0] == 100 + 136*n && outn[1] == 100 + 8*n, "the files have one record for each polygon");
  VP_ASSERT(file_header(out[0], outn[0]) && file_header(out[1], outn[1]), "the headers have the lengths of the files and the box of the map");
  for(i = 0; i < n; ++i){
    unsigned char *p = &out[0][off], *x = &out[1][100 + 8*i];
    VP_ASSERT(be(p) == (unsigned)i + 1 && be(p + 4) == 64 && le(p + 8) == 5 && le(p + 44) == 1 && le(p + 48) == 5 && le(p + 52) == 0, "the records are numbered in order and have one closed line of five points");
    VP_ASSERT(be(x)*2 == (unsigned)off && be(x + 4) == be(p + 4), "the index has the place and the length of each record");
    ok = 1;
    for(j = 0; j < 5; ++j) if(!isd(p + 56 + 16*j, &po[i].lon[j & 3]) || !isd(p + 64 + 16*j, &po[i].lat[j & 3])) ok = 0;
    VP_ASSERT(ok, "the points of the record are the vertices of the polygon");
    mn = mx = po[i].lon[0];
    for(j = 1; j < 4; ++j){ if(po[i].lon[j] < mn) mn = po[i].lon[j]; if(po[i].lon[j] > mx) mx = po[i].lon[j]; }
    VP_ASSERT(isd(p + 12, &mn) && isd(p + 28, &mx), "the box of the record is the one of the polygon (longitude)");
    mn = mx = po[i].lat[0];
    for(j = 1; j < 4; ++j){ if(po[i].lat[j] < mn) mn = po[i].lat[j]; if(po[i].lat[j] > mx) mx = po[i].lat[j]; }
    VP_ASSERT(isd(p + 20, &mn) && isd(p + 36, &mx), "the box of the record is the one of the polygon (latitude)");
    off += 136;
  }
#ifndef FAULTS
  VP_REACH("written");
#endif
}
/* coordinates: whole degrees, so that equal values have equal representations */
static double co(int m){ int v = vp_nd_range(1, m); return((double)(vp_nd_bool() ? v : -v)); }
void shapes(void){
  int i, j, n, f = 0;
  for(i = 0; i < NP; ++i) for(j = 0; j < 4; ++j){ po[i].lon[j] = co(180); po[i].lat[j] = co(90); }
  pm.lon_min = co(180); pm.lat_min = co(90); pm.lon_max = co(180); pm.lat_max = co(90);
  pm.polygons = po;
#ifdef FAULTS
  err_ok = 1;
  f = vp_nd_range(1, 8);
#define FC(k, what) if(f == k){ what; run(1); VP_DONE(); }
  FC(1, nomem = 1) FC(2, nomem = 2) FC(3, failo = 1) FC(4, failo = 2)
  FC(5, failw = 1) FC(6, failw = 2) FC(7, shortw = 1) FC(8, shortw = 2)
#else
  (void)f;
  n = vp_nd_range(0, NP);
  if(n == 0){ run(0); VP_DONE(); }
  if(n == 1){ run(1); VP_DONE(); }
  if(n == 2){ run(2); VP_DONE(); }
#endif
}
#endif

