/* files sent as broadcast frames and received again: tools/nbspmcast, src/sbn.c */
#include "vp.h"
#include <sys/stat.h>
#include <sys/socket.h>
#include <stdarg.h>
#include <limits.h>
#include <unistd.h>
#include "sbnpack.h"
#include "file.h"
int vp_repo_main(int argc, char **argv);
int vp_recv(char *p, int n, int *seq, int *block, int *size, char **data, int *frags, int *fl, unsigned *sseq, int *type);
int vp_recv_max(void); int vp_recv_hdr(void); int vp_recv_psh(void); char *vp_recv_at(int n);
/* err.c, mcast.c and so on */
void VP_STUB(log_err)(int e, char *f, ...){ (void)e; (void)f; }
void VP_STUB(log_errx)(int e, char *f, ...){ (void)e; (void)f; }
void VP_STUB(log_info)(char *f, ...){ (void)f; }
void VP_STUB(set_progname)(char *s){ (void)s; }
void VP_STUB(set_usesyslog)(void){}
int VP_STUB(mcast_snd)(char *a, char *p, char *ifn, char *ifip, int ttl, int loop, void **sa, socklen_t *n, int *gai){
  (void)a; (void)p; (void)ifn; (void)ifip; (void)ttl; (void)loop; *sa = NULL; *n = 3; *gai = 0; return(9); }
int VP_STUB(atexit)(void (*f)(void)){ (void)f; return(0); }
int VP_STUB(usleep)(useconds_t u){ (void)u; return(0); }
void VP_STUB(sendto_sbnpack_usleep)(void){}
void VP_STUB(init_sendto_sbnpack_usleep)(int n){ (void)n; }
int VP_STUB(strto_int)(char *s, int *v){ (void)s; *v = 0; return(1); }
int VP_STUB(strto_u32)(char *s, uint32_t *v){ (void)s; *v = 0; return(1); }
char *VP_STUB(__xpg_basename)(char *s){ return(s); }
static uint32_t seq0;
uint32_t VP_STUB(get_seqnum_start)(void){ return(seq0); }
static int optr;
int VP_STUB(getopt)(int c, char *const *v, const char *s){ (void)c; (void)v; (void)s; optind = 1; if(optr){ optr = 0; return('r'); } return(-1); }
static char *names[3] = {"x", "one", "two"};
static int size[3], cur, pos, next, opened, nframes, sends, fail, failed, last0, radar;
static long fsize;
static unsigned char data[3][110];
int VP_STUB(stat)(const char *f, struct stat *sb){
#if defined(PARAMS) || defined(HEADERS)
  (void)f; sb->st_size = fsize; return(0);
#else
  /* the previous file was sent whole */
  if(cur > 0) VP_ASSERT(failed || (next == nframes && pos == size[cur] + 24), "every file is sent whole");
  ++cur; pos = 0; next = 0; nframes = 0;
  VP_ASSERT(cur < 3 && f == names[cur], "the files are sent in order");
  failed = 0;
  sb->st_size = size[cur];
  return(0);
#endif
}
int VP_STUB(open)(const char *f, int fl, ...){ (void)fl; VP_ASSERT(f == names[cur], "the file is that named"); ++opened; return(5); }
int VP_STUB(close)(int fd){ if(fd == 5) --opened; return(0); }
ssize_t VP_STUB(read)(int fd, void *b, size_t n){
  int k;
  VP_ASSERT(fd == 5, "the file is read");
  for(k = 0; k < 86; ++k) if(k < (int)n && k < size[cur]) ((unsigned char*)b)[k] = data[cur][k];
  return((int)n < size[cur] ? (int)n : size[cur]);
}
#ifndef ONLY
# define ONLY
#endif
#if !defined(PARAMS) && !defined(HEADERS)
/* objects with their types: much easier than untyped memory */
static struct sbnpack_st sp;
static struct sbnpack_frame_st f1[2][1], f2[2][2], f3[2][3], f4[2][4];
static int nm, freed, nsp;
#define SZ sizeof(struct sbnpack_frame_st)
void *VP_STUB(malloc)(size_t n){
  if(!nsp && n == sizeof(struct sbnpack_st)){ nsp = 1; return(&sp); }
  if(n == SZ) return(f1[nm++ & 1]);
  if(n == 2*SZ) return(f2[nm++ & 1]);
  if(n == 3*SZ) return(f3[nm++ & 1]);
  if(n == 4*SZ) return(f4[nm++ & 1]);
#ifdef VP_NATIVE
  return(calloc(1, n));
#else
  return(__CPROVER_allocate(n, 0));
#endif
}
void VP_STUB(free)(void *p){ (void)p; ++freed; }
ssize_t VP_STUB(sendto)(int fd, const void *b, size_t n, int fl, const struct sockaddr *sa, socklen_t sl){
  int seq, block, sz, frags, tt, type, st, k; unsigned sseq; char *d;
  (void)sa; (void)fl;
  VP_ASSERT(fd == 9 && sl == 3, "the frames go to the multicast group");
  VP_ASSERT(!failed, "a file is given up when a send fails");
  ++sends;
  VP_ASSERT(opened == 0, "the file is closed");
  if(sends == fail){ failed = 1; return((fail & 1) ? -1 : (ssize_t)n - 1); }
  st = vp_recv((char*)b, n, &seq, &block, &sz, &d, &frags, &tt, &sseq, &type);
  VP_ASSERT(st == 0, "every frame is accepted by the receiver");
  if(st != 0) return(n);
  if(next == 0){ nframes = frags; VP_ASSERT(type == (radar ? 5 : 4), "the type of the product is the one asked for"); }
  VP_ASSERT((uint32_t)seq == (uint32_t)(seq0 + cur), "the frames of a file have its sequence number");
  VP_ASSERT(block == next, "the frames are numbered in order");
  VP_ASSERT(next < nframes, "the number of frames is the one announced");
  VP_ASSERT(((tt & 1) != 0) == (next == 0) && ((tt & 4) != 0) == (next == nframes - 1), "the first and the last frame are marked");
  VP_ASSERT((tt & ~7) == 0, "the frames are plain ones");
  VP_ASSERT(sz >= 0 && pos + sz <= size[cur] + 24, "the frames carry the bytes of the file");
  k = vp_nd_range(0, 27);
  if(k < sz){
    int o = pos + k;
    unsigned char c = d[k];
    if(o == 0) VP_ASSERT(c == 64, "the file is preceded by a communications header");
    else if(o == 1) VP_ASSERT(c == 12, "the file is preceded by a communications header");
    else if(o < 24) VP_ASSERT(c == 0, "the file is preceded by a communications header");
    else VP_ASSERT(c == data[cur][o - 24], "the frames carry the bytes of the file");
  }
  pos += sz; ++next;
  return(n);
}
static void pair1(int a, int b){
  size[1] = a; size[2] = b;
  (void)vp_repo_main(3, names);
  VP_ASSERT(cur == 2 && (fail > 0 || (next == nframes && pos == size[2] + 24)), "every file is sent whole");
  VP_ASSERT(opened == 0, "the file is closed");
  if(nframes >= 2 && !failed) VP_REACH("several");
#ifdef FAIL
  if(sends >= fail && fail > 0) VP_REACH("send failed");
#endif
}
static void pair(int a, int b, int f){
  int k;
  for(k = 1; k <= 3; ++k) if(f == k){ fail = k; pair1(a, b); VP_DONE(); }
}
void ENTRY(void){
  static const int s[][2] = {{31, 32}, {3, 4}, {4, 0}, {0, 60}, {33, 5}, {61, 60}, {32, 85}, {85, 31}};
  int k, f, which;
  seq0 = 0xfffffffe; optr = radar = vp_nd_bool();
  which = vp_nd_range(0, 7);
  /* which send fails */
  f = 0;
#ifdef FAIL
  f = vp_nd_range(1, 3);
#endif
  vp_nd_bytes(data[1], 85); vp_nd_bytes(data[2], 85);
  for(k = 0; k < 8; ++k) if(which == k ONLY){ if(f == 0){ fail = 0; pair1(s[k][0], s[k][1]); } else pair(s[k][0], s[k][1], f); VP_DONE(); }
}
#elif defined(HEADERS)
#include "sbn.h"
/* the headers of any one frame */
void mcast_headers(void){
  static struct sbnpack_frame_st fr;
  uint32_t pseq = vp_nd_u32(), sseq = vp_nd_u32();
  int seq, block, sz, frags, tt, type, st, n = vp_nd_range(1, 65535), i = vp_nd_range(0, 65534), bs = vp_nd_range(0, DATA_BLOCK_SIZE), rad = vp_nd_bool();
  unsigned rs; char *d;
  VP_ASSUME(i < n);
  if(i > 0 && i < n - 1) VP_ASSUME(bs == DATA_BLOCK_SIZE);
  fr.flh = fr.frame; fr.pdh = fr.frame + 16; fr.psh = fr.frame + 32;
  fr.nframes = n; fr.frame_index = i;
  fr.header_size = i == 0 ? HEADER_SIZE_0 : HEADER_SIZE;
  fr.datablock_size = bs;
  fill_flh(&fr, sseq);
  fill_pdh(&fr, pseq);
  if(i == 0) fill_psh(&fr, rad);
  if(i == 0){ if(bs < 24) return; fr.frame[HEADER_SIZE_0] = 64; }
  st = vp_recv(fr.frame, fr.header_size + bs, &seq, &block, &sz, &d, &frags, &tt, &rs, &type);
  VP_ASSERT(st == 0, "every frame is accepted by the receiver");
  VP_ASSERT((uint32_t)seq == pseq && rs == sseq, "the frames of a file have its sequence number");
  VP_ASSERT(block == i && sz == bs, "the frames are numbered in order");
  if(i == 0) VP_ASSERT(frags == n && type == (rad ? 5 : 4), "the number of frames is the one announced");
  VP_ASSERT(((tt & 1) != 0) == (i == 0) && ((tt & 4) != 0) == (i == n - 1) && (tt & ~7) == 0, "the first and the last frame are marked");
  VP_ASSERT(d == vp_recv_at(fr.header_size), "the data follows the headers");
  if(i == 65534) VP_REACH("largest");
}
#else
void mcast_params(void){
  int fs, nf, last, st;
  fsize = vp_nd_urange(0, 1ULL << 32);
  st = get_file_size("f", &fs);
  VP_ASSERT((st == 0) == (fsize + 24 <= INT_MAX) , "a file too large is refused");
  if(st != 0) return;
  VP_ASSERT(fs == fsize + 24, "the size includes the communications header");
  st = get_file_frame_params(DATA_BLOCK_SIZE, fs, &nf, &last);
  if(st != 0){ VP_ASSERT(fs/DATA_BLOCK_SIZE >= 65535, "only files with too many frames are refused"); return; }
  VP_ASSERT(nf >= 1 && nf <= 65535, "the number of frames fits in the headers");
  VP_ASSERT(last >= 0 && last <= DATA_BLOCK_SIZE && (long)(nf - 1)*DATA_BLOCK_SIZE + last == fs, "the frames add up to the file");
  VP_ASSERT(DATA_BLOCK_SIZE + HEADER_SIZE_0 <= FRAME_SIZE_MAX && FRAME_SIZE_MAX <= vp_recv_max(), "a frame fits");
  VP_ASSERT(HEADER_SIZE == vp_recv_hdr() && HEADER_SIZE_0 == vp_recv_hdr() + vp_recv_psh(), "the headers have the receiver's sizes");
  if(nf == 65535) VP_REACH("largest");
}
#endif
