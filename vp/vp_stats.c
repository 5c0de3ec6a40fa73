#include "vp.h"
#include "vp_stats.h"
struct vp_stats vp_st;
void VP_STUB(update_stats_frames_received)(unsigned int n){ (void)n; ++vp_st.received; }
void VP_STUB(update_stats_frames)(int s){ if(s == 0) ++vp_st.good; else ++vp_st.bad; }
void VP_STUB(update_stats_frames_jumps)(void){ ++vp_st.jumps; }
void VP_STUB(update_stats_products)(int s){ (void)s; ++vp_st.products; }
void VP_STUB(update_stats_products_transmitted)(void){ ++vp_st.transmitted; }
void VP_STUB(update_stats_products_retransmitted)(void){ ++vp_st.retransmitted; }
void VP_STUB(update_stats_products_retransmitted_c)(void){ ++vp_st.retransmitted_c; }
void VP_STUB(update_stats_products_retransmitted_pi)(int s){ (void)s; ++vp_st.pi; }
void VP_STUB(update_stats_products_recovered)(void){ ++vp_st.recovered; }
void VP_STUB(update_stats_products_completed)(void){ ++vp_st.completed; }
void VP_STUB(update_stats_products_missed)(void){ ++vp_st.missed; }
void VP_STUB(update_stats_products_aborted)(void){ ++vp_st.aborted; }
void VP_STUB(update_stats_products_rejected)(void){ ++vp_st.rejected; }
