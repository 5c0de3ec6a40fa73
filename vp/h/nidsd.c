/* radar product converter: filters/filterlib/c/dcnids/nbspradgis.c */
#include <stdio.h>
#include <unistd.h>
#include <time.h>
#include "vp.h"
#include "const.h"
#include "err.h"
#include "dcnids.h"
#include "dcnids_header.h"
#include "dcnids_decode.h"
static int err_ok;
static void fatal(int e){
  if(e != 0){ VP_ASSERT(err_ok, "a correct product is not rejected"); VP_REACH("rejected"); VP_DONE(); } }
void VP_STUB(log_errx)(int e, char *f, ...){ (void)f; fatal(e); }
void VP_STUB(log_err)(int e, char *f, ...){ (void)f; fatal(e); }
#define ND 36
static unsigned char big[ND], big2[ND]; static struct nids_data_st nd; static int n1, n2, bz, bzn, dec1, dec2;
void nids_decode_data(struct nids_data_st *nd);
int VP_STUB(dcnids_bunz)(unsigned char **data, unsigned int *size, int *bzerr){
  VP_ASSERT(*data == nd.data && *size == (unsigned)n1, "the packed data are unpacked"); ++bzn;
  if(bz != 0){ *bzerr = -5; return(bz); }
  *data = big2 + ND - n2; *size = n2; return(0); }
void VP_STUB(nids_decode_radials_af1f)(struct nids_data_st *d){ VP_ASSERT(d == &nd, "decoded"); ++dec1; }
void VP_STUB(nids_decode_digital_radials_16)(struct nids_data_st *d){ VP_ASSERT(d == &nd, "decoded"); ++dec2; }
static unsigned char *p;
static unsigned u16(int hw){ return(p[2*hw - 2]*256u + p[2*hw - 1]); }
static int s16(int hw){ int v = (int)u16(hw); return(v > 32767 ? v - 65536 : v); }
static void run(int k1, int k2, int packed){
  int due;
  n1 = k1; n2 = k2;
  nd.data = big + ND - n1; nd.data_size = n1;
  p = nd.data;
  if(k1 >= 2){ if(packed){ p[0] = 'B'; p[1] = 'Z'; }else{ p[0] = p[1] = 255; } }
  if(packed) p = big2 + ND - n2;
  due = (k1 < 2 || (packed ? (bz != 0 || k2 < NIDS_PACKET_RADIALS_START_RUNS) : k1 < NIDS_PACKET_RADIALS_START_RUNS));
  if(!due) due = (s16(1) != -1 || (u16(9) != 0xaf1f && u16(9) != 16));
  err_ok = due || nd.nids_header.pdb_code == 0;
  nids_decode_data(&nd);
  VP_ASSERT(!due, "a product which is too short or of another kind is rejected");
  VP_ASSERT(bzn == packed, "only packed products are unpacked");
  VP_ASSERT(nd.psb.blockid == (int)u16(2) && nd.psb.blocklength == u16(3)*65536u + u16(4) && nd.psb.numlayers == (int)u16(5) && nd.psb.psb_layer_blocklength == u16(7)*65536u + u16(8), "the block headers are at their documented places");
  VP_ASSERT(nd.radial_packet_header.packet_code == (int)u16(9) && nd.radial_packet_header.first_bin_index == s16(10) && nd.radial_packet_header.numbins == (int)u16(11)
	    && nd.radial_packet_header.center_i == s16(12) && nd.radial_packet_header.center_j == s16(13) && nd.radial_packet_header.scale == (int)u16(14) && nd.radial_packet_header.numradials == (int)u16(15), "the packet header is at its documented place");
  VP_ASSERT(dec1 == (u16(9) == 0xaf1f) && dec2 == (u16(9) == 16), "the packet is decoded according to its kind");
  VP_REACH("decoded");
}
void nids_data(void){
  int k = vp_nd_range(0, 8);
  vp_nd_bytes(big, ND); vp_nd_bytes(big2, ND);
  bz = vp_nd_range(-1, 1);
  nd.nids_header.pdb_code = vp_nd_bool() ? 19 : 94;
  if(k == 0){ run(0, 0, 0); VP_DONE(); }
  if(k == 1){ run(1, 0, 0); VP_DONE(); }
  if(k == 2){ run(2, 0, 0); VP_DONE(); }
  if(k == 3){ run(29, 0, 0); VP_DONE(); }
  if(k == 4){ run(30, 0, 0); VP_DONE(); }
  if(k == 5){ run(36, 0, 0); VP_DONE(); }
  if(k == 6){ run(2, 30, 1); VP_DONE(); }
  if(k == 7){ run(30, 29, 1); VP_DONE(); }
  if(k == 8){ run(5, 0, 1); VP_DONE(); }
}
