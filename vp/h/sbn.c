/* NOAAPORT broadcast frames: src/sbn.c */
#include "vp.h"
#include "sbn.h"
#include "const.h"

/* the decompressor: any status, any output size within the buffer */
static int unz_called, unz_in_ok, unz_status;
static char *unz_out;
int VP_STUB(unz)(char *out, int *out_size, char *in, int in_size){
  ++unz_called;
  unz_out = out;
  unz_status = vp_nd_int();
  int room = *out_size;
  int n = vp_nd_range(0, MAX_FRDATA_SIZE);
  unz_in_ok = (room == MAX_FRDATA_SIZE) && (in_size >= 0);
  (void)in;
  VP_ASSUME(n <= room);
  *out_size = n;
  if(n > 0)
    out[0] = (char)vp_nd_u8();
  return(unz_status);
}

static struct sbn_frame f;
static unsigned int be16(int k){
  return(((unsigned int)(unsigned char)f.rawdata[k] << 8) | (unsigned char)f.rawdata[k+1]);
}
static unsigned int be32(int k){ return((be16(k) << 16) | be16(k + 2)); }

static int raw_is_alpha(int k){
  unsigned char c = (unsigned char)f.rawdata[k];
  return((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'));
}

#ifndef NSYM
#define NSYM 72
#endif

void sbn_unpack(void){
  int st, i, base;
  unsigned int sum = 0;

  vp_nd_bytes(f.rawdata, NSYM);
  /* the bytes at the place where the data can start after a control header */
  f.rawdata_size = vp_nd_range(0, SBN_FRAME_SIZE);

  st = sbn_unpack_frame(&f);

  VP_ASSERT(st == 0 || st == 1 || st == 2 || st == 3, "the verdict on a frame is one of the documented ones");
  if(f.rawdata_size < 16){
    VP_ASSERT(st == 2, "a frame shorter than the frame level header is rejected as inconsistent");
    VP_REACH("short");
    return;
  }
  for(i = 0; i < 14; ++i) sum += (unsigned char)f.rawdata[i];
  if(sum != be16(14)){
    VP_ASSERT(st == 1, "a frame whose checksum does not match is rejected as a checksum error");
    VP_REACH("cksum");
    return;
  }
  VP_ASSERT(st != 1, "a matching checksum is not reported as a checksum error");
  VP_ASSERT(f.fh.sbn_command == (unsigned char)f.rawdata[4], "command decoded");
  VP_ASSERT(f.fh.sbn_datstream == (unsigned char)f.rawdata[5], "data stream decoded");
  VP_ASSERT(f.fh.sbn_seq_number == be32(8), "frame sequence number decoded");
  VP_ASSERT(f.fh.sbn_run == (int)be16(12), "run decoded");
  VP_ASSERT(f.fh.sbn_version == ((unsigned char)f.rawdata[2] >> 4), "version decoded");
  VP_ASSERT(f.fh.header_length == ((unsigned char)f.rawdata[2] & 0xf), "header length decoded");
  if((unsigned char)f.rawdata[4] != SBN_COMMAND_DATA_TRANSFER){
    VP_ASSERT(st == 0, "a frame that is not a data transfer needs nothing else");
    VP_REACH("not-data");
    return;
  }
  if(f.rawdata_size < 32){
    VP_ASSERT(st == 2, "a data frame without a product definition header is rejected");
    return;
  }
  unsigned int blk = be16(20), off = be16(22), size = be16(24);
  base = 32;
  if(blk == 0){
    base += 36;
    if(f.rawdata_size < base){
      VP_ASSERT(st == 2, "a first frame without a product specific header is rejected");
      return;
    }
  }
  if(f.rawdata_size != base + (int)size){
    VP_ASSERT(st == 2, "a frame whose length disagrees with its header is rejected");
    VP_REACH("bad-length");
    return;
  }
  if(off != 0 && (off < CTRLHDR_WMO_SIZE || off > size)){
    VP_ASSERT(st == 2, "a frame whose control header does not fit in the data block is rejected");
    VP_REACH("bad-offset");
    return;
  }
  VP_ASSERT(f.pdh.transfer_type == (unsigned char)f.rawdata[17], "transfer type decoded");
  VP_ASSERT(f.pdh.header_length == (int)be16(18), "pdh length decoded");
  VP_ASSERT(f.pdh.block_number == (int)blk, "block number decoded");
  VP_ASSERT(f.pdh.data_block_offset == (int)off, "data block offset decoded");
  VP_ASSERT(f.pdh.data_block_size == (int)size, "data block size decoded");
  VP_ASSERT(f.pdh.product_seq_number == be32(28), "product sequence number decoded");
  if(blk == 0){
    VP_ASSERT(f.psh.transfer_status_flag == (unsigned char)f.rawdata[32+5], "transfer status flag decoded");
    VP_ASSERT(f.psh.product_type == (unsigned char)f.rawdata[32+10], "product type decoded");
    VP_ASSERT(f.psh.product_category == (unsigned char)f.rawdata[32+11], "product category decoded");
    VP_ASSERT(f.psh.product_code == (int)be16(32+12), "product code decoded");
    VP_ASSERT(f.psh.num_fragments == (int)be16(32+14), "number of fragments decoded");
    VP_ASSERT(f.psh.orig_seq_number == be32(32+20), "original sequence number decoded");
    VP_ASSERT(f.psh.ncf_recv_time == be32(32+24), "receive time decoded");
    VP_ASSERT(f.psh.ncf_transmit_time == be32(32+28), "transmit time decoded");
    VP_ASSERT(f.psh.run_id == (int)be16(32+32), "run id decoded");
    VP_ASSERT(f.psh.orig_run_id == (int)be16(32+34), "original run id decoded");
    VP_ASSERT(f.psh.next_header_offset == (int)be16(32+16), "next header offset decoded");
    VP_ASSERT(f.psh.source == (unsigned char)f.rawdata[32+19], "source decoded");
    VP_ASSERT(f.psh.opt_field_number == (unsigned char)f.rawdata[32], "optional field number decoded");
    VP_ASSERT(f.psh.opt_field_length == (int)be16(34), "optional field length decoded");
    VP_ASSERT(f.psh.awips_data_length == (int)be16(38), "awips data length decoded");
    VP_ASSERT(f.psh.bytes_per_record == (int)be16(40), "bytes per record decoded");
  }
  /* the views are inside the frame, adjacent, and cover the block exactly */
  VP_ASSERT(f.ctrlhdr_size == (int)off, "control header size");
  VP_ASSERT(off == 0 ? f.ctrlhdr == NULL : f.ctrlhdr == &f.rawdata[base], "control header view");
  VP_ASSERT(f.frdata == &f.rawdata[base + (int)off], "data view starts after the control header");
  VP_ASSERT(f.frdata_size == (int)size - (int)off, "data view covers the rest of the block");
  int comp = ((unsigned char)f.rawdata[17] & 16) != 0;
  VP_ASSERT(f.f_frdata_compressed == comp, "compressed flag");
  VP_ASSERT(unz_called == (blk == 0 && off == 0 && comp), "only a compressed first frame without control header is decompressed");
  if(unz_called){
    VP_ASSERT(unz_in_ok && unz_out == f.blkdata, "decompression is bounded by the buffer");
    if(unz_status != 0){
      VP_ASSERT(st == 3, "a decompression error is reported");
      VP_REACH("unz-error");
      return;
    }
  }
  VP_ASSERT(st != 3, "no decompression error is invented");
  if(blk != 0){
    VP_ASSERT(st == 0, "a consistent later frame is accepted");
    VP_ASSERT(f.ccb == NULL && f.ccb_size == 0, "later frames have no communications header");
    VP_REACH("later");
    return;
  }
  if(off != 0){
    int al = raw_is_alpha(base);
    if(!al && off < CCB_SIZE){
      VP_ASSERT(st == 2, "a control header too small for the communications header is rejected");
      return;
    }
    VP_ASSERT(st == 0, "a consistent first frame is accepted");
    VP_ASSERT(al ? (f.ccb == NULL && f.ccb_size == 0) : (f.ccb == f.ctrlhdr && f.ccb_size == CCB_SIZE), "communications header located");
    VP_ASSERT(f.pdata == NULL && f.pdata_size == 0, "no separate product view");
    VP_REACH("first-ctrlhdr");
  }else{
    char *d = comp ? f.blkdata : f.frdata;
    int n = comp ? f.blkdata_size : f.frdata_size;
    if(n > 0){
      unsigned char c = (unsigned char)d[0];
      int al = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
      if(!al && n < CCB_SIZE){
	VP_ASSERT(st == 2, "a product too small for the communications header is rejected");
	return;
      }
      VP_ASSERT(st == 0, "a consistent first frame without control header is accepted");
      VP_ASSERT(f.ccb_size == (al ? 0 : CCB_SIZE) && f.ccb == (al ? NULL : d), "communications header located in the data");
      VP_ASSERT(f.pdata == d + f.ccb_size && f.pdata_size == n - f.ccb_size, "product view after the communications header");
      VP_REACH("first-plain");
      if(comp) VP_REACH("first-compressed");
    }
  }
  if(st == 0 && blk == 0 && off == 0)
    VP_ASSERT(f.pdata_size >= 0, "product view size is not negative");
}

/* ---------------------------------------------------- the WMO heading */
#ifndef NWMO
#define NWMO 40
#endif
static char blk[CCB_SIZE + NWMO + 12];
static char *b;		/* the block; what follows it is arbitrary */
static int bn, bpos;

static int sp(char c){ return(c == ' ' || (c >= '\t' && c <= '\r')); }
static int al(char c){ return((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')); }
static int dg(char c){ return(c >= '0' && c <= '9'); }
static int tok(char *dst, int max){
  int k = 0;
  while(bpos < bn && sp(b[bpos])) ++bpos;
  while(k < max && bpos < bn && !sp(b[bpos]) && b[bpos] != '\0')
    dst[k++] = b[bpos++];
  dst[k] = '\0';
  return(k);
}
static int allof(const char *s, int letters, int digits){
  int k;
  for(k = 0; s[k] != '\0'; ++k)
    if(!((letters && al(s[k])) || (digits && dg(s[k])))) return(0);
  return(1);
}

void sbn_wmo(void){
  static struct sbn_frame g;
  char id[7], st[5], tm[7], aw[7], na[7];
  char rid[7] = "", rst[5] = "", rtm[7] = "", rbbb[7] = "", raw[7] = "", rna[7] = "";
  int i, k, r, blanks = 0, ok, inctrl, withccb = 0, n;

  vp_nd_bytes(id, sizeof(id));		/* whatever was there before */
  vp_nd_bytes(st, sizeof(st));
  aw[0] = na[0] = 'q'; na[1] = 'z'; na[2] = '\0'; aw[1] = '\0'; tm[0] = 'x'; tm[1] = '\0';
  vp_nd_bytes(blk, sizeof(blk));
  bn = n = vp_nd_range(0, NWMO);
  b = &blk[CCB_SIZE];
  /* bound: no run of more than 4 blank characters */
  for(i = 0; i + 4 < NWMO + 12; ++i)
    VP_ASSUME(!(sp(b[i]) && sp(b[i+1]) && sp(b[i+2]) && sp(b[i+3]) && sp(b[i+4])));
  inctrl = vp_nd_bool();
  if(inctrl){
    withccb = vp_nd_bool();
    /* a control header never has fewer bytes than this (frame validation) */
    VP_ASSUME(n + (withccb ? CCB_SIZE : 0) >= CTRLHDR_WMO_SIZE);
    g.ctrlhdr = withccb ? b - CCB_SIZE : b;
    g.ctrlhdr_size = withccb ? n + CCB_SIZE : n;
    VP_ASSUME((withccb != 0) == !al(g.ctrlhdr[0]));
    g.pdata = NULL;
    g.pdata_size = 0;
  }else{
    g.ctrlhdr = NULL;
    g.pdata = b;
    g.pdata_size = n;
  }

  r = split_wmo_header(&g, id, st, tm, aw, na);

  /* the reference: the heading as written in the block and nothing else */
  ok = !(inctrl && n < CTRLHDR_WMO_SIZE);
  for(i = 0; i < n && b[i] != '\n' && b[i] != '\0'; ++i)
    blanks += (b[i] == ' ');
  if(blanks != 2 && blanks != 3) ok = 0;
  bpos = 0;
  if(ok){
    ok = tok(rid, 6) == 6;
    ok = (tok(rst, 4) == 4) && ok;
    ok = (tok(rtm, 6) == 6) && ok;
    if(blanks == 3) ok = (tok(rbbb, 6) > 0) && ok;
  }
  if(ok)
    ok = allof(rid, 1, 1) && allof(rst, 1, 0) && allof(rtm, 0, 1) && allof(rbbb, 1, 1);
  VP_ASSERT(r == 0 || r == 1, "the heading is either accepted or reported");
  VP_ASSERT((r == 0) == ok, "a heading is accepted only if it conforms");
  if(r != 0){
    if(n >= 21) VP_REACH("wmo-rejected");
    return;
  }
  for(i = 0; i < n && b[i] != '\n'; ++i);
  ++i;				/* start of the second line */
  if(i < n && al(b[i])){
    if(n - i >= 9 && b[i + 8] == '\n'){
      for(k = 0; k < 6 && (al(b[i + k]) || dg(b[i + k])); ++k) raw[k] = b[i + k];
      raw[k] = '\0';
    }else{
      for(k = 0; k < 6 && i + k < n && (al(b[i + k]) || dg(b[i + k])); ++k) rna[k] = b[i + k];
      rna[k] = '\0';
    }
  }else if(i < n){
    strcpy(rna, rbbb);
  }
  VP_ASSERT(strcmp(id, rid) == 0, "the wmo id is the one in the heading");
  VP_ASSERT(strcmp(st, rst) == 0, "the station is the one in the heading");
  VP_ASSERT(strcmp(tm, rtm) == 0, "the time is the one in the heading");
  VP_ASSERT(strcmp(aw, raw) == 0, "the awips id is the one in the second line");
  VP_ASSERT(strcmp(na, rna) == 0, "the second line word is the one in the block");
  VP_ASSERT(allof(aw, 1, 1) && allof(na, 1, 1), "identifiers used in names have only letters and digits");
  if(aw[0] != '\0') VP_REACH("wmo-awips");
  if(na[0] != '\0') VP_REACH("wmo-notawips");
  if(rbbb[0] != '\0' && strcmp(na, rbbb) == 0) VP_REACH("wmo-bbb");
  if(inctrl && withccb) VP_REACH("wmo-ctrlhdr");
}

/* the copy of the control header kept with the product */
void sbn_ctrlcopy(void){
  static struct sbn_frame g;
  static char dst[MAX_CTRLHDR_SIZE + 1];
  int size, cap, r, k;

  vp_nd_bytes(g.rawdata, MAX_CTRLHDR_SIZE + 8);
  size = vp_nd_range(0, SBN_FRAME_SIZE);
  cap = vp_nd_range(1, MAX_CTRLHDR_SIZE);
  g.ctrlhdr = vp_nd_bool() ? g.rawdata : NULL;
  g.ctrlhdr_size = size;
  r = cap;
  dst[cap] = 0x55;
  k = copy_ctrlheader(dst, &r, &g);
  VP_ASSERT(dst[cap] == 0x55, "the copy stays in the buffer");
  if(g.ctrlhdr == NULL || size > cap){
    VP_ASSERT(k == 1 && r == 0, "a missing or too big control header is reported as absent");
    if(g.ctrlhdr != NULL) VP_REACH("ctrl-big");
  }else{
    VP_ASSERT(k == 0 && r == size, "the control header is copied whole");
    k = vp_nd_range(0, MAX_CTRLHDR_SIZE);
    VP_ASSERT(k >= size || dst[k] == g.rawdata[k], "the control header is copied unchanged");
    VP_REACH("ctrl-copied");
  }
}
