/*
 * Shared vocabulary of all the harnesses.  A harness is one C file compiled
 * twice: by goto-cc (symbolic; the solver decides) and by gcc (VP_NATIVE; replay
 * of one concrete assignment against the really compiled code).
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

#ifdef VP_NATIVE
# include <stdio.h>
# define VP_STUB(f) vp_stub_##f
void vp_native_fail(const char *msg, const char *file, int line);
void vp_native_reach(const char *name);
void vp_native_diverged(const char *what, const char *file, int line);
# define VP_ASSERT(c, msg) do{ if(!(c)) vp_native_fail(msg, __FILE__, __LINE__); }while(0)
# define VP_ASSUME(c) do{ if(!(c)) vp_native_diverged(#c, __FILE__, __LINE__); }while(0)
# define VP_REACH(name) vp_native_reach(name)
void vp_native_done(void);
# define VP_DONE() vp_native_done()
#else
# define VP_STUB(f) f
# define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP:" msg)
# define VP_ASSUME(c) __CPROVER_assume(c)
/* this path ends here (keeps the cases of a split apart) */
# define VP_DONE() __CPROVER_assume(0)
/* the reachability twin: this assertion must come back violated */
# define VP_REACH(name) __CPROVER_assert(0, "REACH:" name)
#endif

/* nondeterministic draws: recorded in order in a counterexample and replayed */
uint64_t vp_nd_u64(void);
uint32_t vp_nd_u32(void);
int vp_nd_int(void);
uint16_t vp_nd_u16(void);
uint8_t vp_nd_u8(void);
int vp_nd_bool(void);
/* a <= x <= b */
int vp_nd_range(int a, int b);
uint64_t vp_nd_urange(uint64_t a, uint64_t b);
/* fill n arbitrary bytes */
void vp_nd_bytes(void *p, size_t n);
/*
 * Arbitrary string of length 0..maxlen (NUL terminated), in a buffer of
 * at least maxlen + 1.  Returns the length.
 */
size_t vp_nd_str(char *p, size_t maxlen);
/* same but exact length and with the characters from the given alphabet */
void vp_nd_stralpha(char *p, size_t len, const char *alphabet);

/* does a logging call mean an error was reported? */
extern int vp_log_count;
#endif
