/* counts of the statistics events, for the harnesses that stub src/stats.c */
#ifndef VP_STATS_H
#define VP_STATS_H
struct vp_stats {
  int received, good, bad, jumps, products, transmitted, retransmitted, retransmitted_c, pi, recovered,
    completed, missed, aborted, rejected;
};
extern struct vp_stats vp_st;
#endif
