/* the logging layer of the daemon (src/err.c): nothing but a counter */
#include <stdarg.h>
#include "vp.h"
int vp_log_count = 0;
void VP_STUB(log_msg)(int p, char *fmt, ...){ (void)p; (void)fmt; ++vp_log_count; }
void VP_STUB(log_errx)(char *fmt, ...){ (void)fmt; ++vp_log_count; }
void VP_STUB(log_warnx)(char *fmt, ...){ (void)fmt; ++vp_log_count; }
void VP_STUB(log_info)(char *fmt, ...){ (void)fmt; ++vp_log_count; }
void VP_STUB(log_debug)(char *fmt, ...){ (void)fmt; }
void VP_STUB(log_verbose)(int level, char *fmt, ...){ (void)level; (void)fmt; }
void VP_STUB(log_err)(char *s){ (void)s; ++vp_log_count; }
void VP_STUB(log_err2)(char *s, char *t){ (void)s; (void)t; ++vp_log_count; }
void VP_STUB(log_err2u)(char *s, unsigned int u){ (void)s; (void)u; ++vp_log_count; }
void VP_STUB(log_err_open)(char *s){ (void)s; ++vp_log_count; }
void VP_STUB(log_err_write)(char *s){ (void)s; ++vp_log_count; }
void VP_STUB(log_err_read)(char *s){ (void)s; ++vp_log_count; }
void VP_STUB(log_err_db)(char *s, int e){ (void)s; (void)e; ++vp_log_count; }
void VP_STUB(log_err2_db)(char *s, char *t, int e){ (void)s; (void)t; (void)e; ++vp_log_count; }
