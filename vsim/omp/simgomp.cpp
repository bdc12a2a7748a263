// A simulated OpenMP runtime.
//
// The extensions are compiled with -fopenmp -fsanitize=thread and linked against
// this library instead of libgomp and libtsan.  A parallel region runs its team as
// coroutines on the calling thread.  Every instrumented memory access, atomic,
// barrier and critical section is a point at which a seeded scheduler may switch to
// another member of the team, and the accesses are checked for data races with
// vector clocks.  All decisions are functions of (seed, region, event), so that one
// configuration is one exactly repeatable execution.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <map>
#include <sys/mman.h>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;

namespace {

const int MAXT = 16;
const size_t STACK = 1 << 19;

// ---- coroutines (x86-64 System V) ---------------------------------------
extern "C" void simgomp_switch(void **save, void *load);
asm(R"(
.text
.globl simgomp_switch
.hidden simgomp_switch
.type simgomp_switch,@function
simgomp_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size simgomp_switch,.-simgomp_switch
)");

struct VC {
  u32 c[MAXT];
  void join(const VC &o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum State { READY, BLOCKED, DONE };

struct Member {
  void *sp;
  char *stack;
  State state;
  const void *wait;     // what it waits for
  int barriers;         // barriers passed
  int shares;           // work-shares entered
  int singles;
  VC vc;
};

struct Share {          // one work-sharing loop
  bool init;
  long next, end, incr, chunk;
  u64 unext, uend, uincr, uchunk;
  bool up;
  int kind;             // 0 dynamic, 1 guided, 2 static
  int left;
  std::vector<long> given;
};

struct Cell {
  uintptr_t a;
  u32 gen;
  signed char wt;       // last writer (-1: none)
  bool watomic;
  bool shared;
  u32 wc;
  u32 rc[MAXT];         // plain reads
  u32 ac[MAXT];         // atomic reads
  void *wpc;
};

struct Race {
  u64 region;
  uintptr_t addr;
  void *fn, *pc1, *pc2;
  int t1, t2, w1, w2;
};

struct Config {
  u64 seed;
  int team;             // 0: 1 thread; >0: team size asked for
  int vary;             // regions may get fewer threads than asked for
  u32 prob, hot;        // chances of a switch per access, in 1/65536
  int stall;            // member that runs only if nobody else can (-1: none)
  u64 r0, r1;           // regions in which accesses may switch
  u64 e0, e1;           // events in them
} cfg = {0, 0, 0, 0, 0, -1, 0, ~0ull, 0, ~0ull};

struct Stats {
  u64 regions, events, switches, races, barriers, shares, maxteam, stalls, shrunk, single_regions;
  u64 digest;
} st;

std::vector<Race> races;
std::vector<u64> trace;  // region, event, from, to of the latest switches

Member team[MAXT];
int T = 1, cur = -1;     // cur: running member (-1: outside of a region)
int nested = 0;
void *sched_sp;
void (*region_fn)(void *);
void *region_data;
u64 region_no, event_no;
std::vector<Share> shares;
std::vector<int> singles;
void *copyprivate;
int arrived;
std::map<const void *, int> locks;        // held by
std::map<const void *, VC> sync;          // what releasing it published
long first_share[6];
int first_kind;

// shadow memory, one cell per byte
Cell *cells = nullptr;
size_t ncells = 0, used = 0;
u32 gen = 0;

u64 mix(u64 x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27; x *= 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
u64 rnd(u64 what) { return mix(mix(cfg.seed + 0x9e3779b97f4a7c15ull * (region_no + 1)) ^ mix(event_no * 8 + what)); }

void grow();
Cell *cell(uintptr_t a) {
  if (!cells || used * 2 > ncells) grow();
  size_t m = ncells - 1, h = mix(a) & m;
  while (cells[h].gen == gen && cells[h].a != a) h = (h + 1) & m;
  Cell *c = cells + h;
  if (c->gen != gen) {
    memset(c, 0, sizeof *c);
    c->a = a; c->gen = gen; c->wt = -1;
    used++;
  }
  return c;
}
void grow() {
  Cell *old = cells;
  size_t n = ncells;
  ncells = n ? n * 4 : 1 << 12;
  cells = (Cell *)calloc(ncells, sizeof(Cell));
  used = 0;
  for (size_t i = 0; i < n; i++)
    if (old[i].gen == gen) {
      size_t m = ncells - 1, h = mix(old[i].a) & m;
      while (cells[h].gen == gen) h = (h + 1) & m;
      cells[h] = old[i];
      used++;
    }
  free(old);
}

void to_scheduler() { simgomp_switch(&team[cur].sp, sched_sp); }

void report(Cell *c, int other, bool w1, bool w2, void *pc1, void *pc2) {
  st.races++;
  for (auto &r : races)
    if (r.fn == (void *)region_fn && r.pc2 == pc2 && r.w1 == w1) return;
  if (races.size() < 32)
    races.push_back({region_no, c->a, (void *)region_fn, pc1, pc2, other, cur, w1, w2});
}

bool may_switch(bool hot) {
  // members that spin on something must not starve the one they wait for
  if (event_no > 2000000 && event_no % 64 == 0) return true;
  if (nested || region_no < cfg.r0 || region_no >= cfg.r1 || event_no < cfg.e0 || event_no >= cfg.e1) return false;
  u32 p = hot ? cfg.hot : cfg.prob;
  return p && (rnd(1) & 0xffff) < p;
}

void access(void *p, size_t n, bool write, bool atomic, void *pc) {
  if (cur < 0 || T < 2 || nested) return;
  // the event is the access: switching happens before it
  event_no++;
  st.events++;
  bool hot = false;
  {
    Cell *c = cell((uintptr_t)p);
    hot = c->shared;
  }
  if (may_switch(hot)) to_scheduler();
  Member &me = team[cur];
  for (size_t i = 0; i < n; i++) {
    Cell *c = cell((uintptr_t)p + i);
    bool bad = false;
    if (c->wt >= 0 && c->wt != cur) {
      c->shared = true;
      if (c->wc > me.vc.c[(int)c->wt] && !(atomic && c->watomic)) {
        bad = true;
        report(c, c->wt, true, write, c->wpc, pc);
      }
    }
    if (write) {
      for (int t = 0; t < T && !bad; t++)
        if (t != cur) {
          if (c->rc[t]) c->shared = true;
          if (c->rc[t] > me.vc.c[t] || (!atomic && c->ac[t] > me.vc.c[t])) {
            bad = true;
            report(c, t, false, true, nullptr, pc);
          }
        }
      c->wt = (signed char)cur;
      c->wc = me.vc.c[cur];
      c->watomic = atomic;
      c->wpc = pc;
    } else
      (atomic ? c->ac : c->rc)[cur] = me.vc.c[cur];
    if (bad) break;
  }
}

void acquire(const void *p) {
  auto it = sync.find(p);
  if (it != sync.end()) team[cur].vc.join(it->second);
}
void release(const void *p) {
  VC &v = sync[p];
  v.join(team[cur].vc);
  team[cur].vc.c[cur]++;
}

void yield_point() {
  event_no++;
  st.events++;
  if (may_switch(true)) to_scheduler();
}

void block_on(const void *what) {
  team[cur].state = BLOCKED;
  team[cur].wait = what;
  to_scheduler();
}
void wake(const void *what) {
  for (int t = 0; t < T; t++)
    if (team[t].state == BLOCKED && team[t].wait == what) team[t].state = READY;
}

bool single() { return cur < 0 || T < 2 || nested; }

void lock(const void *p) {
  if (single()) return;
  yield_point();
  while (true) {
    auto it = locks.find(p);
    if (it == locks.end() || it->second < 0) break;
    st.stalls++;
    block_on(p);
  }
  locks[p] = cur;
  acquire(p);
}
void unlock(const void *p) {
  if (single()) return;
  release(p);
  locks[p] = -1;
  wake(p);
  yield_point();
}

const char barrier_tag = 0;
VC barrier_vc;

void barrier() {
  if (single()) return;
  st.barriers++;
  yield_point();
  barrier_vc.join(team[cur].vc);
  int alive = 0;
  for (int t = 0; t < T; t++) alive += team[t].state != DONE;
  if (++arrived >= alive) {
    arrived = 0;
    VC v = barrier_vc;
    for (int t = 0; t < T; t++)
      if (team[t].state != DONE) {
        team[t].vc.join(v);
        team[t].vc.c[t]++;
      }
    wake(&barrier_tag);
    yield_point();
  } else
    block_on(&barrier_tag);
}

void body() {
  region_fn(region_data);
  team[cur].state = DONE;
  to_scheduler();
  abort();
}

void prepare(Member &m) {
  if (!m.stack) {
    m.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m.stack == MAP_FAILED) abort();
  }
  void **top = (void **)(m.stack + STACK - 64);
  top = (void **)((uintptr_t)top & ~(uintptr_t)15);
  *--top = nullptr;            // alignment and a null return address
  *--top = (void *)body;       // returned into
  for (int i = 0; i < 6; i++) *--top = nullptr;
  u32 csr; unsigned short cw;
  asm volatile("stmxcsr %0" : "=m"(csr));
  asm volatile("fnstcw %0" : "=m"(cw));
  char *x = (char *)--top;
  memcpy(x, &csr, 4);
  memcpy(x + 4, &cw, 2);
  m.sp = top;
  m.state = READY;
  m.barriers = m.shares = m.singles = 0;
}

int team_size(unsigned asked) {
  if (asked == 1) return 1;
  int n = cfg.team > 0 ? cfg.team : 1;
  if (asked > 1) return cfg.team > 0 ? ((int)asked < MAXT ? (int)asked : MAXT) : 1;
  if (cfg.vary && n > 1) {
    u64 r = mix(cfg.seed * 3 + region_no);
    if (r % 3 == 0) { n = 1 + (int)(mix(r) % (u64)n); st.shrunk++; }
  }
  return n;
}

void run(void (*fn)(void *), void *data, unsigned asked) {
  if (cur >= 0) {             // nested regions get a team of one
    nested++;
    fn(data);
    nested--;
    return;
  }
  region_no++;
  st.regions++;
  T = team_size(asked);
  if ((u64)T > st.maxteam) st.maxteam = T;
  event_no = 0;
  if (T == 1) st.single_regions++;
  gen++; used = 0;
  locks.clear(); sync.clear(); shares.clear(); singles.clear();
  arrived = 0;
  memset(&barrier_vc, 0, sizeof barrier_vc);
  region_fn = fn; region_data = data;
  for (int t = 0; t < T; t++) {
    prepare(team[t]);
    memset(&team[t].vc, 0, sizeof(VC));
    team[t].vc.c[t] = 1;
  }
  int last = -1;
  for (u64 k = 0;; k++) {
    int ready[MAXT], n = 0, alive = 0;
    for (int t = 0; t < T; t++) {
      alive += team[t].state != DONE;
      if (team[t].state == READY) ready[n++] = t;
    }
    if (!alive) break;
    if (!n) {
      if (arrived) {           // the others left the region without the barrier
        arrived = 0;
        wake(&barrier_tag);
        continue;
      }
      fprintf(stderr, "simgomp: deadlock\n");
      abort();
    }
    if (n > 1 && cfg.stall >= 0 && event_no <= 2000000) {
      int m = 0;
      for (int i = 0; i < n; i++)
        if (ready[i] != cfg.stall % T) ready[m++] = ready[i];
      n = m;
    }
    // leave the member that was interrupted if there is another one
    if (n > 1) {
      int m = 0, keep[MAXT];
      for (int i = 0; i < n; i++)
        if (ready[i] != last) keep[m++] = ready[i];
      if (m) { n = m; memcpy(ready, keep, sizeof ready); }
    }
    int to = ready[rnd(2 + k % 5) % n];
    if (to != last && last >= 0) {
      st.switches++;
      if (trace.size() < 4 * 4096) {
        trace.push_back(region_no); trace.push_back(event_no);
        trace.push_back(last); trace.push_back(to);
      }
      st.digest = mix(st.digest ^ mix(region_no * 1000003 + event_no * 64 + last * 16 + to));
    }
    cur = last = to;
    simgomp_switch(&sched_sp, team[to].sp);
    cur = -1;
  }
  T = 1;
}

Share &enter_share(bool &fresh) {
  int k = team[cur].shares++;
  if ((int)shares.size() <= k) shares.resize(k + 1, Share());
  fresh = !shares[k].init;
  shares[k].init = true;
  return shares[k];
}
Share &this_share() { return shares[team[cur].shares - 1]; }

bool next_chunk(Share &s, long *a, long *b) {
  yield_point();
  st.shares++;
  long left = s.incr > 0 ? (s.end - s.next + s.incr - 1) / s.incr : (s.end - s.next + s.incr + 1) / s.incr;
  if (left <= 0) return false;
  long c = s.chunk > 0 ? s.chunk : 1;
  if (s.kind == 1) {
    long g = (left + T - 1) / T;
    if (g > c) c = g;
  }
  if (c > left) c = left;
  *a = s.next;
  s.next += c * s.incr;
  *b = s.next;
  return true;
}
bool next_static(Share &s, long *a, long *b) {
  yield_point();
  long n = s.incr > 0 ? (s.end - s.next + s.incr - 1) / s.incr : (s.end - s.next + s.incr + 1) / s.incr;
  if (n <= 0) return false;
  if (s.given.empty()) s.given.resize(MAXT, 0);
  long k = s.given[cur]++;
  long lo, hi;
  if (s.chunk <= 0) {
    if (k) return false;
    long q = n / T, r = n % T;
    lo = cur * q + (cur < r ? cur : r);
    hi = lo + q + (cur < r);
  } else {
    lo = (k * T + cur) * s.chunk;
    hi = lo + s.chunk;
    if (hi > n) hi = n;
  }
  if (lo >= hi) return false;
  *a = s.next + lo * s.incr;
  *b = s.next + hi * s.incr;
  return true;
}
bool next_of(Share &s, long *a, long *b) { return s.kind == 2 ? next_static(s, a, b) : next_chunk(s, a, b); }

// without a team a loop is one chunk
bool solo(long start, long end, long incr, long *a, long *b) {
  if (incr > 0 ? start >= end : start <= end) return false;
  *a = start; *b = end;
  return true;
}

bool loop_start(int kind, long start, long end, long incr, long chunk, long *a, long *b) {
  if (cur < 0 || nested) return solo(start, end, incr, a, b);
  bool fresh;
  Share &s = enter_share(fresh);
  if (fresh) { s.next = start; s.end = end; s.incr = incr; s.chunk = chunk; s.kind = kind; }
  return next_of(s, a, b);
}
bool loop_next(long *a, long *b) {
  if (cur < 0 || nested) return false;
  if (team[cur].shares == 0) {
    // a combined parallel loop: the work-share was set up by the region
    bool fresh;
    Share &s = enter_share(fresh);
    if (fresh) { s.next = first_share[0]; s.end = first_share[1]; s.incr = first_share[2]; s.chunk = first_share[3]; s.kind = first_kind; }
  }
  return next_of(this_share(), a, b);
}

}  // namespace

extern "C" {

// ---- control --------------------------------------------------------------
void sim_config(u64 seed, int team_, int vary, u32 prob, u32 hot, int stall, u64 r0, u64 r1, u64 e0, u64 e1) {
  cfg = {seed, team_, vary, prob, hot, stall, r0, r1, e0, e1};
  region_no = 0;
  memset(&st, 0, sizeof st);
  races.clear();
  trace.clear();
}
void sim_stats(u64 *out) { memcpy(out, &st, sizeof st); }
int sim_races(u64 *out, int n) {
  int k = 0;
  for (auto &r : races) {
    if (k >= n) break;
    Dl_info i; uintptr_t base = 0;
    if (dladdr(r.fn, &i)) base = (uintptr_t)i.dli_fbase;
    u64 *o = out + 8 * k++;
    o[0] = r.region; o[1] = (u64)r.fn - base; o[2] = r.pc1 ? (u64)r.pc1 - base : 0; o[3] = (u64)r.pc2 - base;
    o[4] = r.t1; o[5] = r.t2; o[6] = r.w1; o[7] = r.w2;
  }
  return k;
}
int sim_race_object(int k, char *buf, int n) {
  Dl_info i;
  if (k >= (int)races.size() || !dladdr(races[k].fn, &i)) return 0;
  snprintf(buf, n, "%s", i.dli_fname);
  return 1;
}
int sim_trace(u64 *out, int n) {
  int k = (int)trace.size() / 4;
  if (k > n) k = n;
  if (k) memcpy(out, trace.data(), sizeof(u64) * 4 * k);
  return k;
}

// ---- instrumentation --------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, false, PC); }
#define RW(n) \
  void __tsan_read##n(void *p) { access(p, n, false, false, PC); } \
  void __tsan_write##n(void *p) { access(p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, false, PC); } \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, false, PC); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, false, PC); } \
  void __tsan_read_write##n(void *p) { access(p, n, false, false, PC); access(p, n, true, false, PC); } \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, false, false, PC); access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((void *)s, n, false, false, PC); access(d, n, true, false, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((void *)s, n, false, false, PC); access(d, n, true, false, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { access(d, n, true, false, PC); return memset(d, v, n); }

// atomics: indivisible here, since only one member of the team runs at a time
#define SYNC_BEFORE(p, mo) if (!single() && (mo) != 0) acquire(p)
#define SYNC_AFTER(p, mo) if (!single() && (mo) != 0) release(p)
#define AT(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type *p, int mo) { access((void *)p, bits / 8, false, true, PC); SYNC_BEFORE((void *)p, mo); return *p; } \
  void __tsan_atomic##bits##_store(volatile type *p, type v, int mo) { access((void *)p, bits / 8, true, true, PC); SYNC_AFTER((void *)p, mo); *p = v; } \
  type __tsan_atomic##bits##_exchange(volatile type *p, type v, int mo) { access((void *)p, bits / 8, true, true, PC); SYNC_BEFORE((void *)p, mo); type o = *p; *p = v; SYNC_AFTER((void *)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_add(volatile type *p, type v, int mo) { access((void *)p, bits / 8, true, true, PC); SYNC_BEFORE((void *)p, mo); type o = *p; *p = o + v; SYNC_AFTER((void *)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v, int mo) { access((void *)p, bits / 8, true, true, PC); SYNC_BEFORE((void *)p, mo); type o = *p; *p = o - v; SYNC_AFTER((void *)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_and(volatile type *p, type v, int mo) { access((void *)p, bits / 8, true, true, PC); SYNC_BEFORE((void *)p, mo); type o = *p; *p = o & v; SYNC_AFTER((void *)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_or(volatile type *p, type v, int mo) { access((void *)p, bits / 8, true, true, PC); SYNC_BEFORE((void *)p, mo); type o = *p; *p = o | v; SYNC_AFTER((void *)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v, int mo) { access((void *)p, bits / 8, true, true, PC); SYNC_BEFORE((void *)p, mo); type o = *p; *p = o ^ v; SYNC_AFTER((void *)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_nand(volatile type *p, type v, int mo) { access((void *)p, bits / 8, true, true, PC); SYNC_BEFORE((void *)p, mo); type o = *p; *p = ~(o & v); SYNC_AFTER((void *)p, mo); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *e, type v, int mo, int) { access((void *)p, bits / 8, true, true, PC); SYNC_BEFORE((void *)p, mo); if (*p == *e) { *p = v; SYNC_AFTER((void *)p, mo); return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *e, type v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *p, type e, type v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, u32)
AT(64, u64)
AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { if (!single()) yield_point(); }
void __tsan_atomic_signal_fence(int) {}

// memory that is handed out again does not carry its history along
static void forget(void *p, size_t n) {
  if (cur < 0 || T < 2 || !p || n > (1u << 20)) return;
  for (size_t i = 0; i < n; i++) {
    Cell *c = cell((uintptr_t)p + i);
    u32 g = c->gen; uintptr_t a = c->a;
    memset(c, 0, sizeof *c);
    c->a = a; c->gen = g; c->wt = -1;
  }
}
void *__wrap_malloc(size_t n) { void *p = malloc(n); forget(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = calloc(a, b); forget(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = realloc(q, n); if (p != q) forget(p, n); return p; }
void *__wrap__Znwm(size_t n) { void *p = ::operator new(n); forget(p, n); return p; }
void *__wrap__Znam(size_t n) { void *p = ::operator new[](n); forget(p, n); return p; }

// ---- regions -----------------------------------------------------------------
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run(fn, data, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_loop_end_cancel() { barrier(); return false; }
bool GOMP_sections_end_cancel() { barrier(); return false; }
static char critical_tag, atomic_tag;
void GOMP_critical_start() { lock(&critical_tag); }
void GOMP_critical_end() { unlock(&critical_tag); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_tag); }
void GOMP_atomic_end() { unlock(&atomic_tag); }

bool GOMP_single_start() {
  if (single()) return true;
  int k = team[cur].singles++;
  yield_point();
  if ((int)singles.size() <= k) singles.resize(k + 1, -1);
  if (singles[k] >= 0) return false;
  singles[k] = cur;
  return true;
}
void *GOMP_single_copy_start() { if (GOMP_single_start()) return nullptr; barrier(); void *p = copyprivate; barrier(); return p; }
void GOMP_single_copy_end(void *p) { copyprivate = p; barrier(); barrier(); }

#define LOOP(name, kind) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(kind, s, e, i, c, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { \
    if (cur < 0) { first_share[0] = s; first_share[1] = e; first_share[2] = i; first_share[3] = c; first_kind = kind; } \
    run(fn, data, n); }
LOOP(dynamic, 0)
LOOP(nonmonotonic_dynamic, 0)
LOOP(guided, 1)
LOOP(nonmonotonic_guided, 1)
LOOP(static, 2)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(0, s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(0, s, e, i, 1, a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(0, s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loop_next(a, b); }
#define PLOOP(name) \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { \
    if (cur < 0) { first_share[0] = s; first_share[1] = e; first_share[2] = i; first_share[3] = 1; first_kind = 0; } \
    run(fn, data, n); }
PLOOP(runtime)
PLOOP(nonmonotonic_runtime)
PLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}

unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(0, 1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
  if (cur < 0) { first_share[0] = 1; first_share[1] = (long)count + 1; first_share[2] = 1; first_share[3] = 1; first_kind = 0; }
  run(fn, data, n);
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  if (cpy) {
    char *buf = (char *)malloc(size + align);
    char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
    cpy(arg, data);
    fn(arg);
    free(buf);
  } else
    fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { if (!single()) yield_point(); }

int omp_get_thread_num() { return cur < 0 || nested ? 0 : cur; }
int omp_get_num_threads() { return cur < 0 || nested ? 1 : T; }
int omp_get_max_threads() { return cur >= 0 ? 1 : cfg.team > 0 ? cfg.team : 1; }
int omp_get_num_procs() { return cfg.team > 0 ? cfg.team : 1; }
int omp_get_thread_limit() { return MAXT; }
int omp_in_parallel() { return cur >= 0 && T > 1; }
int omp_get_level() { return cur < 0 ? 0 : 1 + nested; }
int omp_get_active_level() { return cur >= 0 && T > 1; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : cur < 0 ? -1 : l == 1 ? cur : 0; }
int omp_get_team_size(int l) { return l == 1 && cur >= 0 ? T : 1; }
int omp_get_dynamic() { return 1; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
void omp_set_num_threads(int) {}
void omp_set_schedule(int, int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return (double)(st.events + st.regions) * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void **l) { *l = nullptr; }
void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { lock(l); }
void omp_unset_lock(void **l) { unlock(l); }
int omp_test_lock(void **l) {
  if (single()) return 1;
  auto it = locks.find(l);
  if (it != locks.end() && it->second >= 0) { yield_point(); return 0; }
  lock(l);
  return 1;
}
}
