// Runtime support for the monitor: coverage/comparison callbacks (used only when fxd and fxdshim are
// instrumented), and handlers that save the case being executed when the process crashes or stops
// making progress (measured in its own CPU time, so machine load does not matter).
#define _GNU_SOURCE
#include <stdint.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <stdlib.h>

static uint8_t *cs, *ce;
static uint8_t seen[1 << 16];           // edge -> bitmask of hit-count buckets seen
#define VPBITS 20
static uint8_t vp[1 << VPBITS];
static volatile uint32_t fresh;
static uint64_t vp_count, edge_feats;
static int on;
static uint64_t ncmp;                   // comparisons, multiway branches and divisions executed
static uint64_t hits[1 << 16];          // edge -> executions that reached it
static uint32_t rare_edge = ~0u; static uint64_t rare_hits;

#define NCONST 2048
static uint64_t consts[NCONST]; static uint32_t nconst;
#define NPAIR 256
static uint64_t pairs[NPAIR][2]; static uint32_t npair;

void __sanitizer_cov_8bit_counters_init(uint8_t *s, uint8_t *e) {
  if (s == e) return;
  if (!cs || s < cs) cs = s;
  if (!ce || e > ce) ce = e;
}
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { (void)a; (void)b; }

static inline void vpadd(uint64_t pc, uint64_t a, uint64_t b) {
  uint64_t x = a ^ b;
  uint32_t h = __builtin_popcountll(x);
  uint64_t d = a > b ? a - b : b - a;
  uint32_t l = d ? 64 - __builtin_clzll(d) : 0;
  uint32_t i = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> (64 - VPBITS));
  uint32_t k1 = (i + h) & ((1u << VPBITS) - 1), k2 = (i + 67 + l) & ((1u << VPBITS) - 1);
  if (!vp[k1]) { vp[k1] = 1; vp_count++; fresh++; }
  if (!vp[k2]) { vp[k2] = 1; vp_count++; fresh++; }
}
static inline void addpair(uint64_t a, uint64_t b) {
  if (a == b) return;
  uint32_t i = npair++ % NPAIR;
  pairs[i][0] = a; pairs[i][1] = b;
}
static void addconst(uint64_t c) {
  for (uint32_t i = 0; i < nconst; i++) if (consts[i] == c) return;
  if (nconst < NCONST) consts[nconst++] = c;
}
#define PC ((uint64_t)__builtin_return_address(0))
// first-time-only constant recording, keyed by call site
static uint64_t csite[1 << 14];
static inline void constsite(uint64_t pc, uint64_t c) {
  uint64_t key = (pc ^ (c * 0x9E3779B97F4A7C15ull)) | 1;
  uint32_t i = (uint32_t)((key * 0xD6E8FEB86659FD93ull) >> 50);
  if (csite[i] != key) { csite[i] = key; addconst(c); }
}
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { ncmp++; if (on) vpadd(PC, a, b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { ncmp++; if (on) vpadd(PC, a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { ncmp++; if (on) { vpadd(PC, a, b); addpair(a, b); } }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { ncmp++; if (on) { vpadd(PC, a, b); addpair(a, b); } }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { ncmp++; if (on) { vpadd(PC, a, b); constsite(PC, a); } }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { ncmp++; if (on) { vpadd(PC, a, b); constsite(PC, a); } }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { ncmp++; if (on) { vpadd(PC, a, b); constsite(PC, a); addpair(b, a); } }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { ncmp++; if (on) { vpadd(PC, a, b); constsite(PC, a); addpair(b, a); } }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
  ncmp++;
  if (!on) return;
  for (uint64_t i = 0; i < c[0]; i++) { constsite(PC + i, c[2 + i]); if (i < 16) vpadd(PC + i * 8, c[2 + i], v); }
}
void __sanitizer_cov_trace_div4(uint32_t v) { ncmp++; if (on) vpadd(PC, v, 0); }
void __sanitizer_cov_trace_div8(uint64_t v) { ncmp++; if (on) vpadd(PC, v, 0); }
void __sanitizer_cov_trace_gep(uintptr_t v) { (void)v; }

int rt_instrumented(void) { return cs != ce; }
uint64_t rt_edges_total(void) { return (uint64_t)(ce - cs); }
uint64_t rt_edges_hit(void) { uint64_t n = 0; for (uint64_t i = 0; i < (uint64_t)(ce - cs) && i < sizeof seen; i++) n += seen[i] != 0; return n; }
uint64_t rt_cmps(void) { return ncmp; }
uint64_t rt_features(void) { return vp_count + edge_feats; }
void rt_begin(void) { fresh = 0; if (cs) memset(cs, 0, ce - cs); npair = 0; on = 1; }
uint32_t rt_end(void) {
  on = 0;
  uint64_t n = ce - cs;
  rare_edge = ~0u; rare_hits = ~0ull;
  for (uint64_t i = 0; i < n && i < sizeof seen; i++) {
    if (!(i & 7)) while (i + 8 <= n && i + 8 <= sizeof seen) { uint64_t w; memcpy(&w, cs + i, 8); if (w) break; i += 8; }
    if (i >= n || i >= sizeof seen) break;
    uint8_t c = cs[i];
    if (!c) continue;
    if (++hits[i] < rare_hits) { rare_hits = hits[i]; rare_edge = (uint32_t)i; }
    uint8_t b = c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
    if (!(seen[i] & b)) { seen[i] |= b; fresh++; edge_feats++; }
  }
  return fresh;
}
// the edge of the last execution that the fewest executions reached, and how many did
uint64_t rt_rarest(uint64_t *h) { *h = rare_hits; return rare_edge; }
uint64_t rt_hits(uint64_t i) { return i < sizeof seen ? hits[i] : 0; }
uint32_t rt_consts(uint64_t *out, uint32_t cap) { uint32_t n = nconst < cap ? nconst : cap; memcpy(out, consts, n * 8); return n; }
uint32_t rt_pairs(uint64_t *out, uint32_t cap) { uint32_t n = npair < NPAIR ? npair : NPAIR; if (n > cap) n = cap; memcpy(out, pairs, n * 16); return n; }

// ---- case of record --------------------------------------------------------------------------
static char cur[1 << 19]; static volatile uint32_t curlen; static volatile uint64_t serial;
static char dump[512]; static uint64_t last; static int stuck, stuck_limit;
void rt_case(const char *p, uint32_t n) { if (n > sizeof cur) n = sizeof cur; memcpy(cur, p, n); curlen = n; serial++; }
static void save(int code) {
  int fd = open(dump, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { ssize_t w = write(fd, cur, curlen); (void)w; close(fd); }
  _exit(code);
}
static void crash(int s) { (void)s; save(77); }
static void tick(int s) {
  (void)s;
  if (serial == last && serial) { if (++stuck >= stuck_limit) save(78); } else { stuck = 0; last = serial; }
}
void rt_install(const char *path, int cpu_seconds) {
  strncpy(dump, path, sizeof dump - 1);
  static char alt[1 << 16];
  stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK;
  int sig[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };
  for (unsigned i = 0; i < 5; i++) sigaction(sig[i], &sa, 0);
  stuck_limit = cpu_seconds;
  sa.sa_handler = tick; sa.sa_flags = SA_ONSTACK | SA_RESTART;
  sigaction(SIGPROF, &sa, 0);
  struct itimerval it = { { 1, 0 }, { 1, 0 } };
  setitimer(ITIMER_PROF, &it, 0);
}
