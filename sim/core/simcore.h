#ifndef SIMCORE_H
#define SIMCORE_H
#include <stdint.h>
/* Finish kinds */
enum { FIN_NONE=0, FIN_EXIT=1, FIN_DEADLOCK=2, FIN_HANG=3, FIN_BUDGET=4, FIN_ABORT=5, FIN_OOM=6, FIN_STOP=7, FIN_INTERNAL=8 };
/* Fault classes (where) */
enum { FC_READ_STDIN=0, FC_WRITE_STDOUT=1, FC_WRITE_STDERR=2, FC_FUTEX_WAIT=3, FC_STAT=4, FC_OPEN=5, FC_READ_FILE=6,
       FC_OPENDIR=7, FC_READDIR=8, FC_POLL=9, FC_READ_CHILD=10, FC_THREAD=11, FC_CLOCK=12, FC_WRITE_FILE=13, FC_SPAWN=14, FC_WAITPID=15, FC_CWD=16, FC_N=17 };
/* Fault kinds (what) */
enum { FK_SHORT=1 /*arg = max bytes*/, FK_ERRNO=2 /*arg = errno*/, FK_SPURIOUS=3, FK_JUMP=4 /*arg = ns*/, FK_SLOW=5 /*arg = ns*/ };
typedef struct { int32_t cls; uint32_t nth; int32_t kind; int32_t pad; int64_t arg; } fault_t;
typedef struct { uint64_t idx; int32_t id; int32_t pad; } pickdev_t;
typedef struct { int32_t task; int32_t to; uint64_t edge; } preempt_t;
typedef struct { const char* path; int32_t kind; /*0 file 1 dir*/ int32_t pad; const uint8_t* data; uint64_t len; } vnode_t;
typedef struct {
  uint64_t seed;
  int32_t replay; int32_t mode;
  uint32_t p_switch; uint32_t w_env;
  uint64_t edge_gap;
  int32_t pct_depth; int32_t starve_id;
  uint64_t pct_len, starve_from, starve_to;
  uint64_t max_idle_edges, max_edges, max_points, max_heap;
  int32_t n_cpus; int32_t verbose;
  const fault_t* faults; uint64_t n_faults;
  const pickdev_t* picks; uint64_t n_picks;
  const preempt_t* preempts; uint64_t n_preempts;
  const vnode_t* vnodes; uint64_t n_vnodes;
} simcfg_t;
#define MAXDEV 60000
#define ERRCAP 32768
#define EVCAP (4u<<20)
#define LOGCAP (24u<<20)
typedef struct {
  int32_t finish, code;
  uint64_t edges, points, switches, preempts, simtime, hash, nthreads, live_threads, idle_jumps, futex_waits, heap_peak, picks_total;
  uint64_t fired[17]; uint64_t fired_kind[8];
  uint32_t n_pick, n_pre, overflow, errlen, evlen, loglen;
  char finish_msg[256];
  char states[1024];
  pickdev_t picks[MAXDEV]; preempt_t pre[MAXDEV];
  char err[ERRCAP];
  char ev[EVCAP];
  uint8_t log[LOGCAP];
} simout_t;
#endif
