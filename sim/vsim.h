// Shared layout between the simulator (vsim.c, linked into every simulated process) and the harness (Rust).
#pragma once
#include <stdint.h>

#define VSIM_MAX_TRACE 400000
#define VSIM_NFAULT 32
#define VSIM_LOGCAP (8u << 20)

// trace entry kinds
enum { TK_PREEMPT = 1, TK_FORCED = 2, TK_WAKE = 3, TK_FAULT = 4 };

// fault kinds
enum {
  F_SPURIOUS_WAKE = 0, F_STALL, F_CLOCK_JUMP, F_SHORT_READ, F_SHORT_WRITE, F_EINTR, F_READ_EIO, F_WRITE_EIO, F_WRITE_ENOSPC,
  F_OPEN_ERR, F_CLOSE_ERR, F_NET_SHORT_RECV, F_NET_SHORT_SEND, F_NET_ACCEPT_ABORT, F_NET_DELAY, F_MKDIR_ERR, F_CRASH, F_STAT_ERR,
  F_SCHED_STARVE, F_SPAWN_EAGAIN, F_WALL_JUMP, F_READ_EOF, F_SYNC_ERR, F_FREEZE, F_STORE_DELAY
};

// status
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_DEADLOCK = 3, ST_STEPCAP = 4, ST_PANIC = 5, ST_TRACEFULL = 6, ST_DONE_CLIENTS = 7, ST_CRASHED = 8, ST_SKIP = 9 };

typedef struct {
  uint64_t key;   // step (preempt) or per-kind counter
  uint32_t kind;  // TK_*
  uint32_t fk;    // fault kind for TK_FAULT
  int64_t val;    // chosen thread / index / fault parameter
} vsim_trace_entry;

typedef struct {
  // ---- configuration (written by the harness before start) ----
  uint64_t seed;          // schedule + fault seed
  uint32_t replay;        // 1: take decisions from trace_in, defaults elsewhere
  uint32_t ncpu;          // simulated number of cpus
  uint64_t step_cap;      // abort with ST_STEPCAP after this many steps
  uint32_t policy;        // 0 random walk, 1 PCT, 2 run-to-block, 3 starvation, 4 bursty
  uint32_t pct_d;
  double mean_slice;      // mean instrumented accesses between preemptions
  double mean_atomic;     // mean atomic accesses between preemptions (0: off)
  double pct_horizon;
  double fault_p[VSIM_NFAULT]; // probability per opportunity
  uint64_t fault_max;     // total injected faults allowed
  uint64_t fault_skip;    // number of first opportunities without faults
  char io_prefix[256];    // file faults only for paths below this prefix
  uint64_t crash_at_write;// 0: never; k: exit at k-th faultable mutating file operation
  uint64_t ns_per_step;
  uint64_t freeze_listen_ns; // engine-side threads (created before listen()) stand still for this long once the server listens
  // ---- results ----
  volatile uint32_t status;
  char msg[2048];         // violation / panic message
  uint64_t steps, switches, preemptions, forced, futex_waits, futex_wakes, threads, timer_jumps, clock_reads;
  uint64_t vtime_ns;
  uint64_t event_hash;
  uint64_t sched_hash;    // hash over (thread, step-delta bucket) switches: interleaving fingerprint
  uint64_t fault_opp[VSIM_NFAULT], fault_hit[VSIM_NFAULT];
  uint64_t user[32];      // scenario probes
  uint64_t races; char race_msg[1024];
  // ---- trace ----
  uint64_t ntrace_in, ntrace_out;
  vsim_trace_entry trace_in[VSIM_MAX_TRACE];
  vsim_trace_entry trace_out[VSIM_MAX_TRACE];
  // ---- history log (text lines) ----
  uint64_t loglen;
  char log[VSIM_LOGCAP];
  // ---- client script (server scenario), text ----
  uint64_t scriptlen;
  char script[4u << 20];
} vsim_shared;
