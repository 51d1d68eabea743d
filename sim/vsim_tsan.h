// The runtime behind -Zsanitizer=thread instrumentation: every access is a possible preemption point.
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define PL(a, n) do { if (__builtin_expect(vsim_pend, 0)) tso_plain(a, n); } while (0)
#define RW(sz) \
  void __tsan_read##sz(void *a) { PL(a, sz); step1(); } \
  void __tsan_write##sz(void *a) { PL(a, sz); step1(); } \
  void __tsan_read_write##sz(void *a) { PL(a, sz); step1(); } \
  void __tsan_unaligned_read##sz(void *a) { PL(a, sz); step1(); } \
  void __tsan_unaligned_write##sz(void *a) { PL(a, sz); step1(); } \
  void __tsan_unaligned_read_write##sz(void *a) { PL(a, sz); step1(); } \
  void __tsan_volatile_read##sz(void *a) { PL(a, sz); step1(); } \
  void __tsan_volatile_write##sz(void *a) { PL(a, sz); step1(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void **a) { (void)a; step1(); }
void __tsan_vptr_update(void **a, void *v) { (void)a; (void)v; step1(); }
void __tsan_read_range(void *a, unsigned long n) { PL(a, n); step1(); }
void __tsan_write_range(void *a, unsigned long n) { PL(a, n); step1(); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { PL(d, n); PL(s, n); step1(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { PL(d, n); PL(s, n); step1(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { PL(d, n); step1(); return memset(d, c, n); }
#define DR do { if (__builtin_expect(vsim_pend, 0)) tso_drain(); } while (0)
#define AT(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void)mo; astep(); if (__builtin_expect(vsim_pend, 0)) { ty v; if (tso_load(a, sizeof(ty), &v)) return v; } return __atomic_load_n(a, 5); } \
  void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { astep(); if (__builtin_expect(tso_on, 0) && tso_store(a, (u64)v, sizeof(ty), mo)) return; __atomic_store_n(a, v, 5); } \
  ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void)mo; astep(); DR; return __atomic_exchange_n(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; astep(); DR; return __atomic_fetch_add(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; astep(); DR; return __atomic_fetch_sub(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; astep(); DR; return __atomic_fetch_and(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; astep(); DR; return __atomic_fetch_or(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; astep(); DR; return __atomic_fetch_xor(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { (void)mo; astep(); DR; return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; astep(); DR; return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; astep(); DR; return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { (void)mo; (void)fmo; astep(); DR; __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) { (void)mo; astep(); if (mo == 5) { DR; } __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
