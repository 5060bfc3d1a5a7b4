/* Points of execution of the scheduled threads (see src/sched.rs).
 *
 * The program is compiled with the instrumentation of the thread sanitizer, but these functions
 * stand in for the sanitizer's own: every atomic operation, every access to a global variable
 * and every file-system or environment call of a scheduled thread comes by here, and so does
 * every allocation.  One thread runs at a time; another takes over where the plan says so, where
 * the running one waits for a lock, and where it ends. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define N 3
#define NOBODY 99u
#define MAXTRACE (1u << 20)

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

/* ---------------------------------------------------------------- state */
static __thread int me = -1;
static __thread int quiet = 0;
static uint32_t cur = NOBODY;
static uint32_t done[N], blocked[N];
static uint64_t wait_addr[N], wait_seq[N], wait_count;
static uint32_t live;
static uint64_t tick;
static uint64_t n_alloc[N], n_vis[N];
static struct { int class; unsigned t, at, to; } plan[16];
static unsigned plan_len, next;
static unsigned threads;
static unsigned forced;
/* the visible operations of each thread: address, kind (0 read, 1 write) */
struct op { uint64_t addr; uint32_t kind; uint32_t len; };
static struct op *trace[N];
static uint32_t trace_len[N];

#define LD(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
#define ST(x, v) __atomic_store_n(&(x), (v), __ATOMIC_SEQ_CST)

static void fwait(uint32_t *a, uint32_t v, long nanos) {
  struct timespec ts = {0, nanos};
  raw(SYS_futex, (long)a, 128, v, nanos ? (long)&ts : 0, 0, 0);
}
static void fwake(uint32_t *a) { raw(SYS_futex, (long)a, 129, 64, 0, 0, 0); }
static void hand_to(unsigned t) {
  ST(cur, t);
  fwake(&cur);
}
static void await_turn(void) {
  for (;;) {
    uint32_t c = LD(cur);
    if (c == (uint32_t)me) return;
    fwait(&cur, c, 0);
  }
}
/* the next thread that can run, or -1 */
static int runnable(void) {
  for (unsigned d = 1; d <= threads; d++) {
    unsigned t = ((unsigned)(me < 0 ? 0 : me) + d) % threads;
    if ((int)t != me && !LD(done[t]) && !LD(blocked[t])) return (int)t;
  }
  return -1;
}
static void at_point(int class, uint64_t n) {
  unsigned i = next;
  if (i < plan_len && plan[i].class == class && plan[i].t == (unsigned)me && plan[i].at == n) {
    next = i + 1;
    unsigned to = plan[i].to;
    if (to < threads && !LD(done[to]) && !LD(blocked[to])) {
      hand_to(to);
      await_turn();
    }
  }
}
void mc_alloc_point(void) {
  if (me < 0 || quiet) return;
  await_turn();
  tick++;
  at_point(0, ++n_alloc[me]);
}
static void visible(uint64_t addr, uint32_t kind, uint32_t len) {
  if (me < 0 || quiet) return;
  await_turn();
  tick++;
  uint64_t n = ++n_vis[me];
  if (trace[me] && trace_len[me] < MAXTRACE) trace[me][trace_len[me]++] = (struct op){addr, kind, len};
  at_point(1, n);
}

/* ---------------------------------------------------------------- control */
void mc_setup(unsigned n) {
  threads = n;
  for (unsigned i = 0; i < N; i++) {
    done[i] = i >= n;
    blocked[i] = 0;
    n_alloc[i] = n_vis[i] = 0;
    trace_len[i] = 0;
    trace[i] = (struct op *)raw(SYS_mmap, 0, MAXTRACE * sizeof(struct op), 3, 0x4022, -1, 0);
  }
  live = n;
  plan_len = next = 0;
  forced = 0;
  ST(cur, NOBODY);
}
void mc_plan(int class, unsigned t, unsigned at, unsigned to) {
  if (plan_len < 16) {
    plan[plan_len].class = class;
    plan[plan_len].t = t;
    plan[plan_len].at = at;
    plan[plan_len].to = to;
    plan_len++;
  }
}
void mc_begin(int t) {
  me = t;
  await_turn();
}
void mc_end(void) {
  int t = me;
  int to = -1;
  ST(done[t], 1);
  to = runnable();
  me = -1;
  if (LD(cur) == (uint32_t)t && to >= 0) hand_to((unsigned)to);
  __atomic_fetch_sub(&live, 1, __ATOMIC_SEQ_CST);
  fwake(&live);
}
void mc_start(unsigned t) { hand_to(t); }
/* 0: all threads ended; 1: nobody can run any more (or nothing happened for a long time) */
int mc_wait(void) {
  uint64_t last = ~0ull;
  unsigned still = 0;
  for (;;) {
    uint32_t l = LD(live);
    if (!l) return 0;
    fwait(&live, l, 2000000);
    uint64_t now = LD(tick);
    if (now != last) {
      last = now;
      still = 0;
      continue;
    }
    /* a thread that was woken may have lost its turn */
    if (++still > 4000) return 1;
    uint32_t c = LD(cur);
    if (still > 2 && c < threads && (LD(done[c]) || LD(blocked[c]))) {
      int t = runnable();
      if (t >= 0) hand_to((unsigned)t);
    }
  }
}
unsigned mc_forced(void) { return forced; }
unsigned mc_taken(void) { return next; }
uint64_t mc_points(int class, unsigned t) { return class ? n_vis[t] : n_alloc[t]; }
const struct op *mc_trace(unsigned t, uint32_t *len) {
  *len = trace_len[t];
  return trace[t];
}

/* ---------------------------------------------------------------- locks */
long syscall(long n, ...) {
  long a[6];
  va_list ap;
  va_start(ap, n);
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  long r;
  if (n == SYS_futex && me >= 0) {
    int op = (int)a[1] & 0x7f;
    if (op == 0 || op == 9) {
      /* (only waits that are going to sleep) */
      if (LD(*(uint32_t *)a[0]) == (uint32_t)a[2]) {
        int self = me;
        wait_addr[self] = (uint64_t)a[0];
        wait_seq[self] = ++wait_count;
        ST(blocked[self], 1);
        int to = runnable();
        forced++;
        if (to >= 0) hand_to((unsigned)to);
        r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
        ST(blocked[self], 0);
        await_turn();
        goto out;
      }
    } else if (op == 1 || op == 10) {
      for (long w = a[2]; w > 0; w--) {
        int f = -1;
        for (int i = 0; i < N; i++)
          if (LD(blocked[i]) && wait_addr[i] == (uint64_t)a[0] && (f < 0 || wait_seq[i] < wait_seq[f])) f = i;
        if (f < 0) break;
        ST(blocked[f], 0);
      }
      r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
      visible((uint64_t)a[0], 1, 4);
      goto out;
    }
  }
  r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
out:
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

/* ---------------------------------------------------------------- files and environment */
/* locations for what is outside the program's memory */
#define FS 16
#define ENVS 32
#define CWD 48
static void on_path(const char *f, uint32_t kind) {
  if (f && f[0] != '/') visible(CWD, 0, 1);
  else visible(FS, kind, 1);
}
static void *real(void **p, const char *name) {
  if (!*p) *p = dlsym(RTLD_NEXT, name);
  return *p;
}
#define STR_(x) #x
#define WRAP(at, kind, ret, name, params, args)         \
  ret name params {                                     \
    static void *p;                                     \
    visible(at, kind, 1);                               \
    return ((ret(*) params)real(&p, STR_(name))) args;  \
  }
int open64(const char *f, int fl, ...) {
  static void *p;
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  on_path(f, (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0);
  return ((int (*)(const char *, int, ...))real(&p, "open64"))(f, fl, mode);
}
#define PATH(kind, ret, name, params, args)             \
  ret name params {                                     \
    static void *p;                                     \
    on_path(f, kind);                                   \
    return ((ret(*) params)real(&p, STR_(name))) args;  \
  }
WRAP(CWD, 1, int, chdir, (const char *f), (f))
WRAP(CWD, 1, int, fchdir, (int f), (f))
WRAP(CWD, 0, char *, getcwd, (char *b, size_t n), (b, n))
PATH(1, int, mkdir, (const char *f, mode_t m), (f, m))
PATH(1, int, rmdir, (const char *f), (f))
PATH(1, int, unlink, (const char *f), (f))
PATH(1, int, rename, (const char *f, const char *g), (f, g))
PATH(1, int, symlink, (const char *t, const char *f), (t, f))
PATH(0, char *, realpath, (const char *f, char *b), (f, b))
PATH(0, ssize_t, readlink, (const char *f, char *b, size_t n), (f, b, n))
PATH(0, int, stat64, (const char *f, void *b), (f, b))
PATH(0, int, lstat64, (const char *f, void *b), (f, b))
PATH(0, int, access, (const char *f, int m), (f, m))
PATH(0, void *, opendir, (const char *f), (f))
int statx(int fd, const char *f, int fl, unsigned m, void *b) {
  static void *p;
  if (f && f[0]) on_path(f, 0);
  return ((int (*)(int, const char *, int, unsigned, void *))real(&p, "statx"))(fd, f, fl, m, b);
}
WRAP(ENVS, 1, int, setenv, (const char *k, const char *v, int o), (k, v, o))
WRAP(ENVS, 1, int, unsetenv, (const char *k), (k))
WRAP(ENVS, 0, char *, getenv, (const char *k), (k))

/* ---------------------------------------------------------------- memory */
extern char __data_start[], _end[];
static inline int global(const void *a) { return (char *)a >= __data_start && (char *)a < _end; }
static inline void plain(const void *a, int w, unsigned n) {
  if (me >= 0 && global(a)) visible((uint64_t)a, (uint32_t)w, n);
}
#define RW(n)                                                     \
  void __tsan_read##n(void *a) { plain(a, 0, n); }                \
  void __tsan_write##n(void *a) { plain(a, 1, n); }               \
  void __tsan_unaligned_read##n(void *a) { plain(a, 0, n); }      \
  void __tsan_unaligned_write##n(void *a) { plain(a, 1, n); }     \
  void __tsan_read_write##n(void *a) { plain(a, 1, n); }          \
  void __tsan_unaligned_read_write##n(void *a) { plain(a, 1, n); } \
  void __tsan_volatile_read##n(void *a) { plain(a, 0, n); }       \
  void __tsan_volatile_write##n(void *a) { plain(a, 1, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_vptr_update(void **a, void *b) { (void)a, (void)b; }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_read_range(void *a, unsigned long n) { plain(a, 0, (unsigned)n); }
void __tsan_write_range(void *a, unsigned long n) { plain(a, 1, (unsigned)n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) plain(s, 0, (unsigned)n), plain(d, 1, (unsigned)n);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) plain(s, 0, (unsigned)n), plain(d, 1, (unsigned)n);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (n) plain(d, 1, (unsigned)n);
  return memset(d, c, n);
}
#define SC __ATOMIC_SEQ_CST
#define ATOMIC(bits, T)                                                                                         \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void)mo; visible((uint64_t)a, 0, bits / 8); return __atomic_load_n(a, SC); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void)mo; visible((uint64_t)a, 1, bits / 8); __atomic_store_n(a, v, SC); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { (void)mo; visible((uint64_t)a, 1, bits / 8); return __atomic_exchange_n(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { (void)mo; visible((uint64_t)a, 1, bits / 8); return __atomic_fetch_add(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; visible((uint64_t)a, 1, bits / 8); return __atomic_fetch_sub(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { (void)mo; visible((uint64_t)a, 1, bits / 8); return __atomic_fetch_and(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { (void)mo; visible((uint64_t)a, 1, bits / 8); return __atomic_fetch_or(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; visible((uint64_t)a, 1, bits / 8); return __atomic_fetch_xor(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; visible((uint64_t)a, 1, bits / 8); return __atomic_fetch_nand(a, v, SC); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo, (void)fmo; visible((uint64_t)a, 1, bits / 8); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo, (void)fmo; visible((uint64_t)a, 1, bits / 8); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { (void)mo, (void)fmo; visible((uint64_t)a, 1, bits / 8); __atomic_compare_exchange_n(a, &c, v, 0, SC, SC); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
