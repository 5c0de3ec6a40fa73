/* the receiver's side: src/sbn.c as nbspd uses it */
#include "src/sbn.h"
#include <string.h>
#ifndef VP_COPY
# define VP_COPY 100
#endif
static struct sbn_frame f;
char *vp_recv_at(int n){ return(f.rawdata + n); }
int vp_recv(char *p, int n, int *seq, int *block, int *size, char **data, int *frags, int *fl, unsigned *sseq, int *type){
  int k, st;
  memset(&f.fh, 0, sizeof(f.fh));
  memset(&f.pdh, 0, sizeof(f.pdh));
  if(n > (int)sizeof(f.rawdata)) return(-9);
  for(k = 0; k < (int)sizeof(f.rawdata) && k < VP_COPY; ++k) if(k < n) f.rawdata[k] = p[k];
  f.rawdata_size = n;
  f.f_frdata_compressed = 7;
  st = sbn_unpack_frame(&f);
  *seq = f.pdh.product_seq_number; *block = f.pdh.block_number; *size = f.frdata_size; *data = f.frdata;
  *frags = f.psh.num_fragments; *fl = f.pdh.transfer_type; *sseq = f.fh.sbn_seq_number; *type = f.psh.product_type;
  if(f.f_frdata_compressed != 0 || f.ctrlhdr != NULL || f.fh.sbn_command != SBN_COMMAND_DATA_TRANSFER || f.fh.sbn_datstream < SBN_DATSTREAM_GOESE || f.fh.sbn_datstream > SBN_DATSTREAM_NWSTG) return(-8);
  if(f.pdh.block_number == 0 && (f.psh.orig_seq_number != 0 || (f.psh.transfer_status_flag & PSH_STATUSFLAG_RETRANSMIT) != 0)) return(-7);
  return(st);
}
int vp_recv_max(void){ return(sizeof(f.rawdata)); }
int vp_recv_hdr(void){ return(FRAME_LEVEL_HEADER_SIZE + PRODUCT_DEF_HEADER_SIZE); }
int vp_recv_psh(void){ return(PRODUCT_SPEC_HEADER_SIZE); }
int unz(char *o, int *on, char *d, int n){ (void)o; (void)on; (void)d; (void)n; return(1); }
