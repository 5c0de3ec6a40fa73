/* radar decoders: filters/filterlib/c/dcnids */
#include <stdio.h>
#include <unistd.h>
#include <time.h>
#include <stdarg.h>
#include "vp.h"
#include "const.h"
#include "err.h"
#include "dcnids.h"
#include "dcnids_header.h"
#include "dcnids_decode.h"
#include "dcnids_shp.h"

/* a fatal error report ends the program: is one due? */
static int err_ok, err_seen;
static void fatal(int e){
  err_seen = 1;
  if(e != 0){
    VP_ASSERT(err_ok, "a correct product is not rejected");
#ifdef FAULTS
    VP_REACH("rejected");
#endif
    VP_DONE();
  }
}
void VP_STUB(log_errx)(int e, char *f, ...){ (void)f; fatal(e); }
void VP_STUB(log_err)(int e, char *f, ...){ (void)f; fatal(e); }
void VP_STUB(log_err_open)(char *f){ (void)f; fatal(1); }
void VP_STUB(log_warnx)(char *f, ...){ (void)f; }

#define NB (WMOAWIPS_HEADER_SIZE + NIDS_HEADER_SIZE)
static struct nids_header_st nh;

#ifdef RADIALS
#define MAXP 16
#define MAXD 64
static struct nids_data_st nd;
static unsigned char data[MAXD]; static struct dcnids_polygon_st pool[MAXP]; static int boxes;
void *VP_STUB(malloc)(size_t n){ VP_ASSERT(n <= sizeof(pool), "no more polygons than cells"); return(pool); }
/* the geometry is recorded instead of computed: the angles and the radii of each cell */
void VP_STUB(dcnids_sine_cosine)(double th, double *s, double *c){ *s = th; *c = th + 1000; }
void VP_STUB(dcnids_define_polygon)(double lon0, double lat0, double r1, double r2, double s1, double c1, double s2, double c2, struct dcnids_polygon_st *p){
  VP_ASSERT(lon0 == nd.nids_header.lon && lat0 == nd.nids_header.lat, "the cells are around the place of the radar");
  VP_ASSERT(p >= pool && p < pool + nd.polygon_map.numpolygons, "no more cells than counted");
  VP_ASSERT(c1 == s1 + 1000 && c2 == s2 + 1000, "the sine and the cosine are of the same angle");
  p->lon[0] = r1; p->lon[1] = r2; p->lat[0] = s1; p->lat[1] = s2; }
void VP_STUB(dcnids_polygonmap_bb)(struct dcnids_polygon_map_st *m){ VP_ASSERT(m == &nd.polygon_map, "the box of the map"); ++boxes; }
static int mode, pcode, filt, lmin, lmax;
static int lev16(int c){
  static const int vel[16] = {-65, -64, -50, -36, -26, -20, -10, -1, 0, 10, 20, 26, 36, 50, 64, 65};
  static const int sre[16] = {-65, -50, -40, -30, -22, -10, -5, -1, 0, 5, 10, 22, 30, 40, 50, 65};
  static const int pre[16] = {0, 5, 10, 25, 50, 75, 100, 125, 150, 175, 200, 250, 300, 400, 600, 800};
  switch(pcode){
  case 19: case 20: return(mode == 2 ? c*5 : c*4 - 32);
  case 27: return(vel[c]);
  case 56: return(sre[c]);
  default: return(pre[c]);
  }
}
static int lev256(int c){ return(pcode == 94 ? c/2 - 32 : (c - 128)/2); }
/* the cells of one radial are expected from polygon *q on */
static void ring(int *q, double r1, double r2, double t1, double t2, int code, int level, int *ok){
  int k; double t = t1;
  if(filt && (level < lmin || level > lmax)) return;
  for(k = 0; k < 8; ++k){
    struct dcnids_polygon_st *p = &pool[*q];
    if(t == t2) break;
    if(*q >= nd.polygon_map.numpolygons){ *ok = 0; return; }
    if(p->lon[0] != r1 || p->lon[1] != r2 || p->lat[0] != t || !(p->lat[1] > t) || !(p->lat[1] <= t2) || p->code != code || p->level != level) *ok = 0;
    t = p->lat[1];
    ++*q;
  }
  if(t != t2) *ok = 0;
}
#endif

#ifdef AF1F
int nids_decode_bref_codetolevel(int pdb_mode, int run_code);
int nids_decode_rvel_codetolevel(int run_code);
int nids_decode_nxp_codetolevel(int run_code);
int nids_decode_srvel_codetolevel(int run_code);
void levels(void){
  static const int codes[4] = {19, 27, 78, 56};
  int c = vp_nd_range(0, 15), k = vp_nd_range(0, 3), l;
  mode = vp_nd_int(); pcode = codes[k];
  err_ok = (mode != 1 && mode != 2);
  l = k == 0 ? nids_decode_bref_codetolevel(mode, c) : k == 1 ? nids_decode_rvel_codetolevel(c) : k == 2 ? nids_decode_nxp_codetolevel(c) : nids_decode_srvel_codetolevel(c);
  VP_ASSERT(k != 0 || !err_ok, "a product of another mode is rejected");
  VP_ASSERT(l == lev16(c), "each code has its documented level");
  VP_REACH("level");
}
#ifndef FIRST
# define FIRST 0
#endif
/* two radials with two and one byte pairs; the lengths of the runs and the codes are the case */
static void run(const int runs[6], int first, int start, int delta, int scale, int missing){
  int i, j, q = 0, ok = 1, n = 30, total;
  int code[6]; 
  unsigned char *d;
  d = data + MAXD - (30 + 6 + 4 + 6 + 2);
  for(i = 0; i < 30; ++i) d[i] = vp_nd_u8();
  for(i = 0; i < 6; ++i) code[i] = (runs[i]*5 + first + i*7) & 15;
  for(i = 0; i < 2; ++i){
    int s = start + i*delta;
    d[n] = 0; d[n + 1] = i == 0 ? 2 : 1; d[n + 2] = (s >> 8) & 255; d[n + 3] = s & 255; d[n + 4] = delta >> 8; d[n + 5] = delta & 255; n += 6;
    for(j = 0; j < (i == 0 ? 4 : 2); ++j) d[n++] = (unsigned char)(runs[i*4 + j]*16 + code[i*4 + j]);
  }
  d += missing;          /* the end of the data is the end of the storage */
  for(i = n - missing - 1; missing && i >= 0; --i) d[i] = d[i - missing];
  nd.data = d; nd.data_size = n - missing;
  nd.radial_packet_header.numradials = 2; nd.radial_packet_header.scale = scale;
  nd.nids_header.pdb_code = pcode; nd.nids_header.pdb_mode = mode; nd.nids_header.lon = -66; nd.nids_header.lat = 18;
  nd.polygon_map.flag_usefilter = filt; nd.polygon_map.level_min = lmin; nd.polygon_map.level_max = lmax;
  err_ok = (missing != 0);
  nids_decode_radials_af1f(&nd);
  VP_ASSERT(missing == 0, "a product which is shorter than its radials is rejected");
  for(i = 0; i < 2; ++i){
    double t1 = (start + i*delta)/10.0, t2 = t1 + delta/10.0;
    total = 0;
    for(j = 0; j < (i == 0 ? 4 : 2); ++j){
      int k, m = runs[i*4 + j]*scale/1000;
      for(k = 0; k < m; ++k) ring(&q, total + k, total + k + 1, t1, t2, code[i*4 + j], lev16(code[i*4 + j]), &ok);
      total += m;
    }
  }
  VP_ASSERT(ok && q == nd.polygon_map.numpolygons, "each kilometre of each run is one ring of cells with its value, in order, and nothing else");
  VP_ASSERT(boxes == 1, "the box is computed");
#ifndef FAULTS
  VP_REACH("decoded");
#endif
}
static const int R0[6] = {0,0,0,0,0,0}, R1[6] = {1,2,1,0,1,2}, R2[6] = {1,0,0,0,3,0}, R3[6] = {0,1,0,1,2,1};
static const int R4[6] = {1,0,0,1,0,0};
void af1f(void){
  static const int codes[6] = {19, 20, 27, 78, 80, 56};
  int k = vp_nd_range(0, 5), w = vp_nd_range(0, 5);
  mode = vp_nd_range(1, 2); lmin = vp_nd_range(-70, 800); lmax = vp_nd_range(-70, 800);
  pcode = codes[k];
  if(w == 5){ filt = 1; run(R4, FIRST, 0, 10, 1000, 0); VP_DONE(); }
  filt = 0;
  if(w == 0){ run(R0, FIRST, 0, 10, 1000, 0); VP_DONE(); }
  if(w == 1){ run(R1, FIRST, 3595, 10, 1000, 0); VP_DONE(); }
  if(w == 2){ run(R2, FIRST, -5, 5, 2000, 0); VP_DONE(); }
  if(w == 3){ run(R3, FIRST, 100, 600, 1000, 0); VP_DONE(); }
  if(w == 4){ run(R3, FIRST, 100, 10, 1000, 0); VP_DONE(); }
}
void af1f_short(void){
  int m = vp_nd_range(1, 9);
  mode = 2; pcode = 19;
  if(m == 1){ run(R1, FIRST, 0, 10, 1000, 1); VP_DONE(); }
  if(m == 2){ run(R1, FIRST, 0, 10, 1000, 2); VP_DONE(); }
  if(m == 3){ run(R1, FIRST, 0, 10, 1000, 3); VP_DONE(); }
  if(m == 4){ run(R1, FIRST, 0, 10, 1000, 8); VP_DONE(); }
  if(m == 5){ run(R1, FIRST, 0, 10, 1000, 9); VP_DONE(); }
  if(m == 6){ run(R1, FIRST, 0, 10, 1000, 12); VP_DONE(); }
  if(m == 7){ run(R1, FIRST, 0, 10, 1000, 13); VP_DONE(); }
  if(m == 8){ run(R1, FIRST, 0, 10, 1000, 18); VP_DONE(); }
}
#endif

#ifdef DIGITAL
#ifndef FILT
# define FILT 0
#endif
/* two radials of two and one bytes; any values */
static void run(int start, int delta, int scale, int missing){
  int i, j, q = 0, ok = 1, n = 30;
  int code[3];
  unsigned char *d;
  d = data + MAXD - (30 + 6 + 2 + 6 + 1);
  for(i = 0; i < 30; ++i) d[i] = vp_nd_u8();
  for(i = 0; i < 3; ++i) code[i] = vp_nd_u8();
  for(i = 0; i < 2; ++i){
    int s = start + i*delta;
    d[n] = 0; d[n + 1] = i == 0 ? 2 : 1; d[n + 2] = (s >> 8) & 255; d[n + 3] = s & 255; d[n + 4] = delta >> 8; d[n + 5] = delta & 255; n += 6;
    for(j = 0; j < (i == 0 ? 2 : 1); ++j) d[n++] = (unsigned char)code[i*2 + j];
  }
  d += missing;
  for(i = n - missing - 1; missing && i >= 0; --i) d[i] = d[i - missing];
  nd.data = d; nd.data_size = n - missing;
  nd.radial_packet_header.numradials = 2; nd.radial_packet_header.scale = scale;
  nd.nids_header.pdb_code = pcode; nd.nids_header.pdb_mode = mode; nd.nids_header.lon = -66; nd.nids_header.lat = 18;
  nd.polygon_map.flag_usefilter = filt; nd.polygon_map.level_min = lmin; nd.polygon_map.level_max = lmax;
  err_ok = (missing != 0);
  nids_decode_digital_radials_16(&nd);
  VP_ASSERT(missing == 0, "a product which is shorter than its radials is rejected");
  for(i = 0; i < 2; ++i){
    double t1 = (start + i*delta)/10.0, t2 = t1 + delta/10.0;
    for(j = 0; j < (i == 0 ? 2 : 1); ++j){
      int c = code[i*2 + j];
      if(c < 2) continue;
      ring(&q, (double)(j*scale)/1000.0, (double)((j + 1)*scale)/1000.0, t1, t2, c, lev256(c), &ok);
    }
  }
  VP_ASSERT(ok && q == nd.polygon_map.numpolygons, "each value is one ring of cells with its level, in order, and nothing else");
  VP_ASSERT(boxes == 1, "the box is computed");
#ifndef FAULTS
  VP_REACH("decoded");
#endif
}
void digital(void){
  int w = vp_nd_range(0, 3);
  mode = vp_nd_range(1, 2); filt = FILT; lmin = vp_nd_range(-70, 100); lmax = vp_nd_range(-70, 100);
  pcode = vp_nd_bool() ? 94 : 99;
  if(w == 0 ONLY){ run(0, 10, 1000, 0); VP_DONE(); }
  if(w == 1 ONLY){ run(3595, 10, 250, 0); VP_DONE(); }
  if(w == 2 ONLY){ run(-5, 5, 1000, 0); VP_DONE(); }
  if(w == 3 ONLY){ run(100, 600, 1000, 0); VP_DONE(); }
}
void digital_short(void){
  int m = vp_nd_range(1, 6);
  mode = 2; pcode = 94;
  if(m == 1){ run(0, 10, 1000, 1); VP_DONE(); }
  if(m == 2){ run(0, 10, 1000, 2); VP_DONE(); }
  if(m == 3){ run(0, 10, 1000, 3); VP_DONE(); }
  if(m == 4){ run(0, 10, 1000, 7); VP_DONE(); }
  if(m == 5){ run(0, 10, 1000, 8); VP_DONE(); }
  if(m == 6){ run(0, 10, 1000, 9); VP_DONE(); }
}
#endif
