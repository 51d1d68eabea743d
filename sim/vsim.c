// vsim: deterministic simulator for multi-threaded processes.
//
// Linked as an object file into every simulated binary (harness, HTTP server, command line tools), which are compiled with
// -Zsanitizer=thread so that every plain and atomic memory access of repository and dependency code calls __tsan_*; this
// file *is* the runtime behind those calls. Threads are real pthreads, but exactly one of them holds the baton at any time.
// Who runs next, when a running thread is preempted, which futex waiter wakes, what the clock says, what files and sockets
// do and which faults are injected is decided here from one seeded PRNG, or from a trace file on replay.
#define _GNU_SOURCE
#include "vsim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <math.h>
#include <poll.h>
#include <netinet/in.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long reterr(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ------------------------------------------------------------------ state
#define MAXT 4096
#define INF64 ((u64)-1)
enum { S_FREE = 0, S_RUN, S_BLOCK, S_EXIT };
#define TSO_MAX 16
typedef struct { volatile void *a; u64 v; u32 sz; i64 ttl; } tso_entry;
typedef struct {
  int nbuf; tso_entry buf[TSO_MAX]; // delayed atomic stores, oldest first
  int state, side; // side 1: thread of the background (engine) side of a server process
  volatile int go; // real futex word
  const void *chan;
  u64 deadline; // virtual ns, INF64 = none
  u64 wseq;     // FIFO order
  int timedout;
  int exited;
  i64 prio;
  u64 stall_until; // step
  u64 joinchan;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
} T;

static T *threads;
static int nthreads;
static int cur;
static int active;
vsim_shared *vsim_sh;
#define sh vsim_sh
static __thread int my_tid = -1;

i64 vsim_budget = INT64_MAX, vsim_abudget = INT64_MAX;
static i64 binit = INT64_MAX;
static u64 base_steps, vextra, waitseq, forced_ctr, wake_ctr, fault_ctr, event_ctr;
static i64 wall_off;
static u64 last_switch_step;
static int nopreempt, calm;
static int tso_on, vsim_pend; // store buffers in use; pending stores of the running thread
static void tso_drain(void);
static u64 curs[5]; // replay cursors per kind
static i64 lowprio = -1;
static u64 pct_points[64];
static u64 pct_n, pct_i;
static pthread_key_t exit_key;

static u64 rs[4], rs2[4]; // rs: schedule+faults, rs2: getrandom bytes
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 xnext(u64 *s) {
  u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
static u64 sm(u64 *x) { u64 z = (*x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static u64 rnd(void) { return xnext(rs); }
static u64 rndn(u64 n) { return n ? rnd() % n : 0; }
static double rnd01(void) { return (double)(rnd() >> 11) * (1.0 / 9007199254740992.0); }
static i64 geom(double mean) {
  if (mean <= 1) return 1;
  double u = 1.0 - rnd01();
  double v = -log(u) * mean;
  if (v < 1) return 1;
  if (v > 1e12) return (i64)1e12;
  return (i64)v;
}

static u64 steps(void) { return base_steps + (u64)(binit - vsim_budget); }
static u64 vnow(void) { return steps() * sh->ns_per_step + vextra; }
static void hmix(u64 a, u64 b) {
  u64 h = sh->event_hash ^ (a * 0x9e3779b97f4a7c15ull) ^ rotl(b * 0xc2b2ae3d27d4eb4full, 23);
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  sh->event_hash = h;
}

static void finish(u32 status, const char *msg) __attribute__((noreturn));
static void publish(void) {
  sh->steps = steps();
  sh->vtime_ns = vnow();
  sh->threads = nthreads;
}
static void finish(u32 status, const char *msg) {
  publish();
  if (sh->status == ST_RUNNING) {
    if (msg && !sh->msg[0]) { strncpy(sh->msg, msg, sizeof sh->msg - 1); }
    sh->status = status;
  }
  for (;;) RAW(SYS_exit_group, status == ST_CRASHED ? 137 : 0);
}

static void set_budget(i64 b) { // b >= 1
  base_steps = steps();
  u64 lim = calm ? sh->step_cap : sh->step_cap / 2;
  u64 left = lim > base_steps ? lim - base_steps : 1;
  if ((u64)b > left) b = (i64)left;
  if (b < 1) b = 1;
  binit = vsim_budget = b;
}

static void log_trace(u32 kind, u64 key, u32 fk, i64 val) {
  if (sh->ntrace_out >= VSIM_MAX_TRACE) finish(ST_TRACEFULL, "trace full");
  vsim_trace_entry *e = &sh->trace_out[sh->ntrace_out++];
  e->key = key; e->kind = kind; e->fk = fk; e->val = val;
}
static vsim_trace_entry *next_in(u32 kind) {
  while (curs[kind] < sh->ntrace_in && sh->trace_in[curs[kind]].kind != kind) curs[kind]++;
  return curs[kind] < sh->ntrace_in ? &sh->trace_in[curs[kind]] : 0;
}
// replay lookup: value recorded for exactly this key, or -1
static i64 lookup_in(u32 kind, u64 key, u32 *fk) {
  vsim_trace_entry *e;
  while ((e = next_in(kind)) && e->key < key) curs[kind]++;
  if (e && e->key == key) { curs[kind]++; if (fk) *fk = e->fk; return e->val; }
  return -1;
}

static u64 freeze_until; // virtual ns: side 1 threads stand still until then
static int frozen(T *t) { return t->side && freeze_until && vnow() < freeze_until; }
static int runnable(T *t) { return (t->state == S_RUN || (t->state == S_BLOCK && t->deadline <= vnow())) && !frozen(t); }

static void fwait(volatile int *p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) RAW(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void fwake(volatile int *p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static i64 slice(void) {
  if (nopreempt) return (i64)1e12;
  switch (sh->policy) {
  case 1: {
    u64 s = steps();
    i64 b = 100000;
    while (pct_i < pct_n && pct_points[pct_i] <= s) pct_i++;
    if (pct_i < pct_n && pct_points[pct_i] - s < (u64)b) b = pct_points[pct_i] - s;
    return b;
  }
  case 2: return (i64)1e12;
  case 4: return rnd01() < 0.25 ? geom(15) : geom(sh->mean_slice);
  default: return geom(sh->mean_slice);
  }
}
static i64 aslice(void) {
  if (nopreempt || sh->policy == 2 || sh->policy == 1 || sh->mean_atomic <= 0) return INT64_MAX;
  return geom(sh->mean_atomic);
}
static void rearm(void) {
  if (sh->replay) {
    vsim_trace_entry *e;
    u64 s = steps();
    while ((e = next_in(TK_PREEMPT)) && e->key <= s) curs[TK_PREEMPT]++;
    set_budget(e && !nopreempt ? (i64)(e->key - s) : (i64)1e12);
    vsim_abudget = INT64_MAX;
  } else {
    set_budget(slice());
    vsim_abudget = aslice();
  }
}

static void resume_setup(T *t) {
  if (t->state == S_BLOCK) { t->timedout = 1; t->chan = 0; t->deadline = INF64; t->state = S_RUN; }
}

static void switch_to(int next) {
  int me = cur;
  if (next == me) { resume_setup(&threads[me]); return; }
  u64 s = steps();
  sh->switches++;
  hmix((u64)me * 1000003 + next, s);
  u64 d = s - last_switch_step; int lg = 0; while (d) { lg++; d >>= 1; }
  sh->sched_hash = (sh->sched_hash ^ ((u64)next * 64 + lg)) * 0x100000001b3ull;
  last_switch_step = s;
  resume_setup(&threads[next]);
  cur = next;
  vsim_pend = tso_on ? threads[next].nbuf : 0;
  fwake(&threads[next].go);
}
// hand over and wait until scheduled again
static void handoff(int next) {
  int me = cur;
  switch_to(next);
  if (next != me) fwait(&threads[me].go);
}

static int pick(int *cand, int n) {
  // cand: runnable thread ids in cyclic order starting after cur
  u64 s = steps();
  int m = 0, tmp[MAXT];
  for (int i = 0; i < n; i++)
    if (threads[cand[i]].stall_until <= s) tmp[m++] = cand[i];
  if (m == 0) { memcpy(tmp, cand, n * sizeof(int)); m = n; }
  switch (sh->policy) {
  case 1: {
    int b = 0;
    for (int i = 1; i < m; i++)
      if (threads[tmp[i]].prio > threads[tmp[b]].prio) b = i;
    return tmp[b];
  }
  case 3: { // starvation: low-priority victims only run when nothing else can
    int k = 0, t2[MAXT];
    for (int i = 0; i < m; i++)
      if (threads[tmp[i]].prio >= 0) t2[k++] = tmp[i];
    if (k && rnd01() > 0.002) { sh->fault_hit[F_SCHED_STARVE] += k < m; return t2[rndn(k)]; }
    return tmp[rndn(m)];
  }
  default: return tmp[rndn(m)];
  }
}

static int collect(int *cand, int include_self) {
  int n = 0;
  for (int k = 1; k <= nthreads; k++) {
    int t = (cur + k) % nthreads;
    if (t == cur && !include_self) continue;
    if (threads[t].state != S_FREE && threads[t].state != S_EXIT && runnable(&threads[t])) cand[n++] = t;
  }
  return n;
}

static void describe_deadlock(void) {
  char *p = sh->msg;
  if (p[0]) return;
  int o = snprintf(p, sizeof sh->msg, "deadlock: no thread can run and no timer is pending; ");
  for (int i = 0; i < nthreads && o < 1900; i++)
    if (threads[i].state == S_BLOCK) o += snprintf(p + o, sizeof sh->msg - o, "t%d blocked; ", i);
}

// current thread blocked / exited (self not runnable) or yielding
static void forced_switch(int is_yield, int exiting) {
  if (vsim_pend) tso_drain();
  int cand[MAXT];
  u64 key = ++forced_ctr;
  sh->forced++;
  int n;
  for (;;) {
    n = collect(cand, 1);
    if (n) break;
    u64 best = INF64;
    for (int i = 0; i < nthreads; i++)
      if (threads[i].state == S_BLOCK && !frozen(&threads[i]) && threads[i].deadline < best) best = threads[i].deadline;
    for (int i = 0; i < nthreads; i++)
      if (frozen(&threads[i]) && (threads[i].state == S_RUN || threads[i].deadline <= freeze_until) && freeze_until < best && threads[i].state != S_EXIT) best = freeze_until;
    if (best == INF64) { describe_deadlock(); finish(ST_DEADLOCK, 0); }
    u64 now = vnow();
    if (best > now) { vextra += best - now; sh->timer_jumps++; }
  }
  int next, def = cand[0];
  if (sh->replay) {
    i64 v = lookup_in(TK_FORCED, key, 0);
    next = def;
    if (v >= 0)
      for (int i = 0; i < n; i++)
        if (cand[i] == v) next = (int)v;
  } else {
    if (is_yield && sh->policy == 1) threads[cur].prio = lowprio--;
    next = pick(cand, n);
    if (next != def) log_trace(TK_FORCED, key, 0, next);
  }
  if (exiting) {
    if (next == cur) { describe_deadlock(); finish(ST_DEADLOCK, 0); }
    switch_to(next);
    return;
  }
  handoff(next);
}

static u64 last_sw_of_cur;
__attribute__((noinline)) void vsim_slow(int atomic) {
  (void)atomic;
  if (!active) { vsim_budget = vsim_abudget = binit = INT64_MAX; return; }
  u64 s = steps();
  if (s >= sh->step_cap) finish(ST_STEPCAP, "no-progress: step cap reached: no completion within the bounded number of steps after faults stopped");
  if (!calm && s >= sh->step_cap / 2) { // faults, stalls and unfair scheduling stop; the rest of the budget is fair
    calm = 1;
    if (!sh->replay) { sh->policy = 0; sh->mean_slice = 2000; sh->mean_atomic = 0; sh->fault_p[F_STALL] = 0; }
    for (int i = 0; i < VSIM_NFAULT; i++) sh->fault_p[i] = 0;
    for (int i = 0; i < nthreads; i++) threads[i].stall_until = 0;
  }
  if (sh->replay) {
    i64 v = -1;
    vsim_trace_entry *e = next_in(TK_PREEMPT);
    if (e && e->key == s) { v = e->val; curs[TK_PREEMPT]++; }
    rearm();
    if (v >= 0 && v < nthreads && v != cur && threads[v].state != S_FREE && threads[v].state != S_EXIT && runnable(&threads[v])) {
      sh->preemptions++;
      handoff((int)v);
    }
    return;
  }
  if (sh->policy == 1) {
    int at_point = 0;
    for (u64 i = 0; i < pct_n; i++) at_point |= pct_points[i] == s;
    if (at_point || s - last_sw_of_cur > 300000) threads[cur].prio = lowprio--;
  }
  int cand[MAXT];
  int n = collect(cand, 1);
  // stall fault: some runnable thread is descheduled for a long while
  if (sh->fault_p[F_STALL] > 0 && n > 1) {
    sh->fault_opp[F_STALL]++;
    if (rnd01() < sh->fault_p[F_STALL]) {
      threads[cand[rndn(n)]].stall_until = s + (u64)geom(sh->mean_slice * 200);
      sh->fault_hit[F_STALL]++;
    }
  }
  rearm();
  if (n <= 1) return;
  int next = pick(cand, n);
  if (next != cur) {
    log_trace(TK_PREEMPT, s, 0, next);
    sh->preemptions++;
    last_sw_of_cur = s;
    handoff(next);
  }
}

static inline void step1(void) { if (__builtin_expect(--vsim_budget <= 0, 0)) vsim_slow(0); }
static inline void astep(void) {
  if (__builtin_expect(--vsim_budget <= 0, 0)) vsim_slow(1);
  else if (__builtin_expect(--vsim_abudget <= 0, 0)) vsim_slow(1);
}

// ------------------------------------------------------------------ faults
static int enospc_sticky;
static i64 fault(u32 kind, u64 nvals) {
  u64 key = ++fault_ctr;
  sh->fault_opp[kind]++;
  i64 v = 0;
  if (sh->replay) {
    u32 fk = 0;
    i64 r = lookup_in(TK_FAULT, key, &fk);
    if (r > 0 && fk == kind) v = r;
  } else {
    u64 total = 0;
    for (int i = 0; i < VSIM_NFAULT; i++) if (i != F_STALL && i != F_SCHED_STARVE && i != F_STORE_DELAY) total += sh->fault_hit[i];
    if (sh->fault_p[kind] > 0 && key > sh->fault_skip && total < sh->fault_max && rnd01() < sh->fault_p[kind]) {
      v = 1 + (i64)rndn(nvals);
      log_trace(TK_FAULT, key, kind, v);
    }
  }
  if (v) { sh->fault_hit[kind]++; hmix(0xfa000 + kind, v); if ((u64)v > nvals && nvals) v = (i64)nvals; }
  return v;
}

// ------------------------------------------------------------------ store buffers (weak memory)
// Atomic stores weaker than SeqCst may become visible to other threads later, in order, as in the store buffers of real processors
// (and as the memory model allows). A buffer is emptied by read-modify-write operations, SeqCst stores and fences of its thread, when the
// thread blocks, makes a system call, frees memory or accesses the location in another way, and otherwise after a drawn number of atomic accesses.
static void tso_apply(tso_entry *e) {
  switch (e->sz) {
  case 1: __atomic_store_n((volatile u8 *)e->a, (u8)e->v, 5); break;
  case 2: __atomic_store_n((volatile uint16_t *)e->a, (uint16_t)e->v, 5); break;
  case 4: __atomic_store_n((volatile u32 *)e->a, (u32)e->v, 5); break;
  default: __atomic_store_n((volatile u64 *)e->a, e->v, 5);
  }
}
static void tso_pop(T *t, int n) {
  for (int i = 0; i < n; i++) tso_apply(&t->buf[i]);
  memmove(t->buf, t->buf + n, (t->nbuf - n) * sizeof(tso_entry));
  vsim_pend = t->nbuf -= n;
}
static void tso_drain(void) { T *t = &threads[cur]; tso_pop(t, t->nbuf); }
void vsim_drain(void) { if (vsim_pend && active && my_tid == cur) tso_drain(); }
static void tso_age(void) {
  T *t = &threads[cur];
  int n = 0;
  for (int i = 0; i < t->nbuf; i++) if (--t->buf[i].ttl <= 0) n = i + 1;
  if (n) tso_pop(t, n);
}
// plain access: empty the buffer up to this location
static __attribute__((noinline)) void tso_plain(const volatile void *a, unsigned long sz) {
  T *t = &threads[cur];
  for (int i = t->nbuf - 1; i >= 0; i--)
    if ((u8 *)t->buf[i].a < (u8 *)a + sz && (u8 *)a < (u8 *)t->buf[i].a + t->buf[i].sz) { tso_pop(t, i + 1); return; }
}
static int tso_load(const volatile void *a, unsigned long sz, void *out) {
  tso_age();
  T *t = &threads[cur];
  for (int i = t->nbuf - 1; i >= 0; i--)
    if ((u8 *)t->buf[i].a < (u8 *)a + sz && (u8 *)a < (u8 *)t->buf[i].a + t->buf[i].sz) {
      if (t->buf[i].a == a && t->buf[i].sz == sz) { memcpy(out, &t->buf[i].v, sz); return 1; }
      tso_pop(t, i + 1);
      return 0;
    }
  return 0;
}
static i64 fault(u32 kind, u64 nvals);
// 1: the store was taken over
static int tso_store(volatile void *a, u64 v, unsigned long sz, int mo) {
  if (!active || my_tid != cur) return 0;
  if (vsim_pend) tso_age();
  u8 *sp = __builtin_frame_address(0);
  T *t = &threads[cur];
  if (mo == 5 || sz > 8 || nopreempt || ((u8 *)a > sp && (u8 *)a < sp + (8 << 20))) { if (t->nbuf) tso_drain(); return 0; }
  i64 ttl = fault(F_STORE_DELAY, 64);
  if (!ttl) {
    if (!t->nbuf) return 0;
    ttl = 1; // stores stay in order
  }
  if (t->nbuf == TSO_MAX) tso_pop(t, 1);
  t->buf[t->nbuf++] = (tso_entry){a, v, (u32)sz, ttl};
  vsim_pend = t->nbuf;
  return 1;
}

// ------------------------------------------------------------------ blocking
// returns 1 when timed out
static int block_on(const void *chan, u64 deadline) {
  T *t = &threads[cur];
  t->state = S_BLOCK; t->chan = chan; t->deadline = deadline; t->wseq = ++waitseq; t->timedout = 0;
  forced_switch(0, 0);
  return threads[my_tid].timedout;
}
static int wake_chan(const void *chan, int n) {
  int woken = 0;
  while (woken < n) {
    int w[MAXT], k = 0;
    for (int i = 0; i < nthreads; i++)
      if (threads[i].state == S_BLOCK && threads[i].chan == chan) {
        int j = k++;
        while (j > 0 && threads[w[j - 1]].wseq > threads[i].wseq) { w[j] = w[j - 1]; j--; }
        w[j] = i;
      }
    if (!k) break;
    int c = 0;
    if (k > 1 && n < k) {
      u64 key = ++wake_ctr;
      if (sh->replay) { i64 v = lookup_in(TK_WAKE, key, 0); if (v >= 0 && v < k) c = (int)v; }
      else { c = rnd01() < 0.5 ? 0 : (int)rndn(k); if (c) log_trace(TK_WAKE, key, 0, c); }
    }
    T *t = &threads[w[c]];
    t->state = S_RUN; t->chan = 0; t->deadline = INF64; t->timedout = 0;
    woken++;
  }
  return woken;
}

static int insim(void) { return active && my_tid >= 0; }

static u64 ts_ns(const struct timespec *ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }
#define WALL_BASE 1700000000000000000ull
#define MONO_BASE 1000000000000ull

static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *to, u32 *addr2, u32 val3) {
  int cmd = op & 127 & ~FUTEX_PRIVATE_FLAG;
  int c = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  (void)cmd; (void)addr2; (void)val3;
  if (vsim_pend) tso_drain();
  if (c == FUTEX_WAIT || c == FUTEX_WAIT_BITSET) {
    astep();
    sh->futex_waits++;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    i64 sp = fault(F_SPURIOUS_WAKE, 2);
    if (sp == 1) { forced_switch(1, 0); return 0; }
    if (sp == 2) { forced_switch(1, 0); return -EINTR; }
    u64 dl = INF64;
    if (to) {
      u64 ns = ts_ns(to);
      if (c == FUTEX_WAIT) dl = vnow() + ns;
      else {
        u64 b = (op & FUTEX_CLOCK_REALTIME) ? WALL_BASE + (u64)wall_off : MONO_BASE;
        dl = ns > b ? ns - b : 0;
      }
    }
    hmix(0x1000 + cur, 1);
    if (block_on(addr, dl)) return -ETIMEDOUT;
    return 0;
  }
  if (c == FUTEX_WAKE || c == FUTEX_WAKE_BITSET) {
    sh->futex_wakes++;
    int n = wake_chan(addr, (int)val);
    hmix(0x2000 + cur, n);
    astep();
    return n;
  }
  return raw6(SYS_futex, (long)addr, op, val, (long)to, (long)addr2, val3);
}

static void sim_random(u8 *buf, size_t n) {
  for (size_t i = 0; i < n; i++) buf[i] = (u8)(xnext(rs2) >> 24);
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (insim()) {
    if (n == SYS_futex) return reterr(sim_futex((u32 *)a[0], (int)a[1], (u32)a[2], (const struct timespec *)a[3], (u32 *)a[4], (u32)a[5]));
    if (n == SYS_getrandom) { sim_random((u8 *)a[0], (size_t)a[1]); return a[1]; }
  } else if (n == SYS_getrandom && sh) { sim_random((u8 *)a[0], (size_t)a[1]); return a[1]; }
  return reterr(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (sh) { sim_random(buf, n); return (ssize_t)n; }
  return reterr(RAW(SYS_getrandom, buf, n, flags));
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

// ------------------------------------------------------------------ time
static int sim_clock(clockid_t c, struct timespec *ts) {
  sh->clock_reads++;
  if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_COARSE) {
    i64 j = fault(F_CLOCK_JUMP, 40000);
    if (j) vextra += (u64)j * 1000000ull; // up to 40 s forward
  }
  step1();
  u64 ns = vnow();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    i64 j = fault(F_WALL_JUMP, 7200);
    if (j) wall_off += (j - 3600) * 1000000000ll;
    ns += WALL_BASE + (u64)wall_off;
  } else ns += MONO_BASE;
  ts->tv_sec = (time_t)(ns / 1000000000ull);
  ts->tv_nsec = (long)(ns % 1000000000ull);
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (insim()) return sim_clock(c, ts);
  return (int)reterr(RAW(SYS_clock_gettime, c, ts));
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
static void sim_sleep(u64 ns) { block_on(&threads[cur].wseq, vnow() + ns); }
int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (insim()) { sim_sleep(ts_ns(req)); return 0; }
  return (int)reterr(RAW(SYS_nanosleep, req, rem));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
  if (insim()) {
    u64 ns = ts_ns(req);
    if (flags & TIMER_ABSTIME) {
      u64 b = c == CLOCK_REALTIME ? WALL_BASE + (u64)wall_off : MONO_BASE;
      u64 dl = ns > b ? ns - b : 0;
      block_on(&threads[cur].wseq, dl);
    } else sim_sleep(ns);
    return 0;
  }
  return (int)-RAW(SYS_clock_nanosleep, c, flags, req, rem);
}
int usleep(useconds_t us) { struct timespec ts = {us / 1000000, (us % 1000000) * 1000}; return nanosleep(&ts, 0); }
unsigned sleep(unsigned s) { struct timespec ts = {s, 0}; nanosleep(&ts, 0); return 0; }

int sched_yield(void) {
  if (insim()) { step1(); forced_switch(1, 0); return 0; }
  return (int)reterr(RAW(SYS_sched_yield));
}

// ------------------------------------------------------------------ cpus
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (insim()) {
    memset(set, 0, sz);
    for (u32 i = 0; i < sh->ncpu; i++) CPU_SET_S(i, sz, set);
    return 0;
  }
  long r = RAW(SYS_sched_getaffinity, pid, sz, set);
  if (r < 0) return (int)reterr(r);
  return 0;
}
int sched_setaffinity(pid_t pid, size_t sz, const cpu_set_t *set) {
  if (insim()) {
    for (u32 i = 0; i < sh->ncpu; i++) if (CPU_ISSET_S(i, sz, set)) return 0;
    errno = EINVAL; return -1;
  }
  return (int)reterr(RAW(SYS_sched_setaffinity, pid, sz, set));
}
long sysconf(int name) {
  static long (*real)(int);
  if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  if (insim() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return sh->ncpu;
  return real(name);
}

// ------------------------------------------------------------------ threads
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static int side_of_new(void);
static int new_tid(void) {
  if (nthreads >= MAXT) finish(ST_STEPCAP, "too many threads");
  int id = nthreads++;
  T *t = &threads[id];
  memset(t, 0, sizeof *t);
  t->state = S_RUN; t->deadline = INF64;
  if (!sh->replay) {
    if (sh->policy == 1) t->prio = 1000 + (i64)rndn(1000000);
    if (sh->policy == 3) t->prio = rnd01() < 0.3 ? -1 : 0;
  }
  return id;
}
static void thread_gone(void) {
  T *t = &threads[my_tid];
  if (t->exited) return;
  if (vsim_pend) tso_drain();
  t->exited = 1;
  t->state = S_EXIT;
  wake_chan(t, MAXT);
  hmix(0x3000, my_tid);
  my_tid = -1;
  forced_switch(0, 1);
}
static void key_dtor(void *v) {
  // re-arm so that every other thread-specific destructor has run before the thread hands over for good
  u64 n = (u64)v;
  if (n < 4) { pthread_setspecific(exit_key, (void *)(n + 1)); return; }
  if (active && my_tid >= 0) thread_gone();
}
static void *tramp(void *p) {
  T *t = p;
  my_tid = (int)(t - threads);
  fwait(&t->go);
  pthread_setspecific(exit_key, (void *)1);
  return t->fn(t->arg);
}
int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = (void *)dlsym(RTLD_NEXT, "pthread_create");
  if (!insim()) return real_create(pt, attr, fn, arg);
  if (vsim_pend) tso_drain();
  astep();
  int id = new_tid();
  T *t = &threads[id];
  t->fn = fn; t->arg = arg;
  t->side = side_of_new();
  int r = real_create(&t->pt, attr, tramp, t);
  if (r) { t->state = S_EXIT; return r; }
  *pt = t->pt;
  hmix(0x4000, id);
  astep();
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!real_join) real_join = (void *)dlsym(RTLD_NEXT, "pthread_join");
  if (insim()) {
    astep();
    for (int i = nthreads - 1; i >= 0; i--)
      if (threads[i].pt == pt && i != 0) {
        while (!threads[i].exited) block_on(&threads[i], INF64);
        break;
      }
  }
  return real_join(pt, ret);
}

// ------------------------------------------------------------------ history log
void vsim_log(const char *fmt, ...) {
  if (!sh) return;
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  if (sh->loglen + n + 1 < VSIM_LOGCAP) { memcpy(sh->log + sh->loglen, buf, n); sh->loglen += n; sh->log[sh->loglen++] = '\n'; sh->log[sh->loglen] = 0; }
}

// ------------------------------------------------------------------ API for the in-process harness
static void start_common(void) {
  threads = mmap(0, sizeof(T) * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  u64 x = sh->seed ^ 0x5eed5eed5eedull;
  for (int i = 0; i < 4; i++) rs[i] = sm(&x);
  for (int i = 0; i < 4; i++) rs2[i] = sm(&x);
  if (!sh->ns_per_step) sh->ns_per_step = 10;
  if (!sh->step_cap) sh->step_cap = 1ull << 40;
  if (!sh->ncpu) sh->ncpu = 4;
  real_create = (void *)dlsym(RTLD_NEXT, "pthread_create");
  real_join = (void *)dlsym(RTLD_NEXT, "pthread_join");
  pthread_key_create(&exit_key, key_dtor);
  base_steps = 0; binit = vsim_budget = INT64_MAX;
  base_steps = 0;
  nthreads = 0;
  int id = new_tid();
  cur = id; my_tid = id;
  threads[id].pt = pthread_self();
  if (sh->policy == 1 && !sh->replay) {
    pct_n = sh->pct_d < 60 ? sh->pct_d : 60;
    for (u64 i = 0; i < pct_n; i++) pct_points[i] = 1 + (u64)(rnd01() * sh->pct_horizon);
    for (u64 i = 0; i < pct_n; i++) for (u64 j = i + 1; j < pct_n; j++) if (pct_points[j] < pct_points[i]) { u64 t = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = t; }
  }
  tso_on = sh->fault_p[F_STORE_DELAY] > 0;
  active = 1;
  binit = vsim_budget = 1; base_steps = 0; // steps() == 0
  rearm();
}
void vsim_attach(vsim_shared *s) { vsim_sh = s; }
void vsim_start(vsim_shared *s) { vsim_sh = s; start_common(); }
void vsim_nopreempt(int on) { if (!active) return; vsim_drain(); nopreempt = on; rearm(); }
u64 vsim_steps(void) { return active ? steps() : 0; }
u64 vsim_vtime(void) { return active ? vnow() : 0; }
u64 vsim_event(void) { return ++event_ctr; }
void vsim_point(void) { astep(); }
int vsim_tid(void) { return my_tid; }
void vsim_sleep_ns(u64 ns) { if (insim()) sim_sleep(ns); }
void vsim_finish(u32 status, const char *msg) { if (!active) { if (msg && !sh->msg[0]) strncpy(sh->msg, msg, sizeof sh->msg - 1); if (sh->status == ST_RUNNING) sh->status = status; for (;;) RAW(SYS_exit_group, 0); } finish(status, msg); }
int vsim_active(void) { return active; }
i64 vsim_fault(u32 kind, u64 n) { return active ? fault(kind, n) : 0; }
u64 vsim_rand(void) { return xnext(rs2); }

#include "vsim_tsan.h"
#include "vsim_io.h"
#include "vsim_net.h"

// ------------------------------------------------------------------ standalone start (server, command line tools): VSIM_FD names the shared memfd
static void at_exit_publish(void) {
  if (active) { publish(); if (sh->status == ST_RUNNING) sh->status = ST_OK; }
}
__attribute__((constructor)) static void ctor(void) {
  const char *fd = getenv("VSIM_FD");
  if (!fd) return;
  vsim_shared *s = mmap(0, sizeof(vsim_shared), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(fd), 0);
  if (s == MAP_FAILED) { RAW(SYS_exit_group, 99); }
  RAW(SYS_close, atoi(fd));
  unsetenv("VSIM_FD");
  vsim_sh = s;
  start_common();
  atexit(at_exit_publish);
  if (s->scriptlen) net_start_clients();
}
