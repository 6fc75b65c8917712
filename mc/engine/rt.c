// Native replay of one schedule: the scenario's IR, compiled to machine code and
// instrumented, runs on real threads; this runtime hands the processor from
// thread to thread in the recorded order and checks everything it sees.
#define _GNU_SOURCE
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define MAXT 8
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

struct sched { int tid; int site; int point; int flags; };      // per executed visible instruction
extern const struct sched vp_sched[];
extern const int vp_nsched;
extern const int vp_solo, vp_solo_any;
extern const struct sched vp_per[];                   // per-thread sequences
extern const int vp_per_off[], vp_per_len[];
extern const u64 vp_anys[]; extern const int vp_any_off[], vp_any_len[];
extern const u64 vp_nows[]; extern const int vp_now_off[], vp_now_len[];
extern const int vp_nthreads, vp_have_fin, vp_have_probe;
void vp_call_setup(void); void vp_call_fin(void); void vp_call_probe(void);
extern void (*const vp_threads[])(void);
void vp_globals(void);

static int phase = 0;               // 0 setup 1 threads 2 fin/probe
static int pos, ptpos[MAXT + 1], anypos[MAXT + 1], nowpos[MAXT + 1];
static int flags;                   // of the current instruction: 1 reads the value before the delayed store, 2 is that store, 4 fails spuriously
static __thread int me = MAXT;      // MAXT: main (setup, fin, probe)
static int done[MAXT + 1], blkkind[MAXT + 1]; static u64 blkarg[MAXT + 1];
void vpr_blk(int kind, u64 arg) { blkkind[me] = kind; blkarg[me] = arg; }
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int cur = -1;
static void out(const char *s) { if (write(1, s, strlen(s))) {} }
static void finish(const char *kind, const char *text, int id) {
  char b[600];
  snprintf(b, sizeof b, "RESULT %s %d %s [thread %d, step %d]\n", kind, id, text, me, pos);
  out(b);
  _exit(0);
}
static void viol(const char *kind, const char *text, int id) { finish(kind, text, id); }

// ---------------------------------------------------------------- objects
struct obj { u8 *p; u64 n; int alive; int kind; int owner; const char *why; };
static struct obj objs[20000]; static int nobjs;
extern const int vp_fill;
static struct obj *addobj(void *p, u64 n, int kind) {
  if (nobjs == 20000) finish("error", "too many objects", 0);
  objs[nobjs] = (struct obj){p, n, 1, kind, me, ""};
  return &objs[nobjs++];
}
static struct obj *find(const void *q) {
  for (int i = nobjs - 1; i >= 0; i--)
    if ((u8 *)q >= objs[i].p && (u8 *)q < objs[i].p + (objs[i].n ? objs[i].n : 1)) return &objs[i];
  return 0;
}
void vpr_global(void *p, u64 n) { addobj(p, n, 'g'); }
void vpr_alloca(void *p, u64 n) {
  for (int i = nobjs - 1; i >= 0; i--) if (objs[i].p == (u8 *)p && objs[i].kind == 'a' && objs[i].owner == me) { objs[i].alive = 1; objs[i].n = n; return; }
  addobj(p, n, 'a'); memset(p, vp_fill, n);
}
static void access_na(u8 *p, u64 n, int write);
void vpr_life(void *p, int start) {
  for (int i = nobjs - 1; i >= 0; i--) if (objs[i].p == (u8 *)p && objs[i].kind == 'a') {
    if (!start && objs[i].alive) access_na(p, objs[i].n, 1);
    objs[i].alive = start; return; }
}
static void check(void *p, u64 n) {
  if (!n) return;
  struct obj *o = find(p);
  if (!o || (u8 *)p + n > o->p + o->n) viol("wild", "access outside any object", 0);
  if (!o->alive) viol("uaf", "access after lifetime ended", 0);
}
// ------------------------------------------------------------------ races
#define VIS (MAXT + 1)              // the delayed store happens before
typedef struct { u32 c[MAXT + 2]; } vc;
static vc clk[MAXT + 1], acqp[MAXT + 1], relf[MAXT + 1], scv;
struct sh { u8 *a; u32 w[2][MAXT + 1], r[2][MAXT + 1]; vc msg; };
static struct sh *tab[1 << 16];
static struct sh *shadow(u8 *a) {
  u32 h = (u32)(((u64)a * 0x9E3779B97F4A7C15ull) >> 48);
  while (tab[h] && tab[h]->a != a) h = (h + 1) & 0xffff;
  if (!tab[h]) { tab[h] = calloc(1, sizeof(struct sh)); tab[h]->a = a; }
  return tab[h];
}
static void join(vc *a, const vc *b) { for (int i = 0; i <= VIS; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
extern const int vp_race;
static void acc(u8 *p, u64 n, int write, int atomic) {
  if (phase != 1 || !vp_race) return;
  for (u64 i = 0; i < n; i++) {
    struct sh *s = shadow(p + i);
    for (int t = 0; t < MAXT; t++) {
      if (t == me) continue;
      u32 k = clk[me].c[t];
      int bad = s->w[0][t] > k || (write && s->r[0][t] > k);
      if (!atomic) bad |= s->w[1][t] > k || (write && s->r[1][t] > k);
      if (bad) viol("race", "data race", 0);
    }
    (write ? s->w : s->r)[atomic][me] = clk[me].c[me];
  }
}
static void access_na(u8 *p, u64 n, int write) { acc(p, n, write, 0); }
static void overwritten(u8 *p, u64 n);
void vpr_mem(void *p, u64 n, int write) { check(p, n); access_na(p, n, write); if (write) overwritten(p, n); if (phase == 1 && write) for (u64 i = 0; i < n; i++) memset(&shadow((u8 *)p + i)->msg, 0, sizeof(vc)); }
// order: 0 monotonic 1 acquire 2 release 3 acq_rel 4 seq_cst
static void a_load(u8 *p, int order) {
  if (phase != 1) return;
  struct sh *s = shadow(p);
  if (order == 1 || order >= 3) join(&clk[me], &s->msg); else join(&acqp[me], &s->msg);
}
static void a_store(u8 *p, int order, int rmw) {
  if (phase != 1) return;
  struct sh *s = shadow(p);
  const vc *v = order >= 2 ? &clk[me] : &relf[me];
  if (!rmw) memset(&s->msg, 0, sizeof(vc));
  join(&s->msg, v);
  clk[me].c[me]++;
}
void vpr_chk(void *p, u64 n) { check(p, n); }
// the delayed store: threads it does not happen before may still read the value that was there
static u8 *dp; static u64 dn, dold, casold; static vc dmsg; static int dlast, dsc;
static u64 get(u8 *p, u64 n) { u64 v = 0; memcpy(&v, p, n); return v; }
static void delayed(u8 *p, u64 n, int order) {
  if (!(flags & 2)) return;
  dp = p; dn = n; dold = get(p, n); dmsg = shadow(p)->msg; dlast = 1;
  clk[me].c[VIS] = 1;
  if (order == 4) scv.c[VIS] = 1;
}
static void overwritten(u8 *p, u64 n) { if (dlast && !(flags & 2) && p < dp + dn && dp < p + n) dlast = 0; }
static void legal(u8 *p, u64 n, int order) {
  if (!dlast || p != dp || n != dn || clk[me].c[VIS] || (order == 4 && scv.c[VIS])) finish("diverged", "no old value to read", 0);
}
static void seen(u8 *p) { if (dlast && p == dp) clk[me].c[VIS] = 1; }
u64 vpr_read(void *p, u64 n, u64 v, int order) {
  acc(p, n, 0, 1);
  if (phase == 1 && flags & 1) {
    legal(p, n, order);
    if (order == 1 || order >= 3) join(&clk[me], &dmsg); else join(&acqp[me], &dmsg);
    return dold;
  }
  if (phase == 1) seen(p);
  a_load(p, order);
  return v;
}
void vpr_aload(void *p, u64 n, int order) { check(p, n); acc(p, n, 0, 1); a_load(p, order); }
void vpr_astore(void *p, u64 n, int order) { check(p, n); acc(p, n, 1, 1); overwritten(p, n); delayed(p, n, order); a_store(p, order, 0); }
void vpr_armw(void *p, u64 n, int order) { check(p, n); acc(p, n, 1, 1); if (phase == 1) seen(p); a_load(p, order); overwritten(p, n); delayed(p, n, order); a_store(p, order, 1); }
// the comparison value of a compare-and-swap
u64 vpr_exp(u8 *p, u64 n, u64 e, int order) {
  if (phase != 1) return e;
  casold = get(p, n);
  return flags & 5 ? ~casold : e;
}
void vpr_acas(u8 *p, u64 n, int so, int fo, int ok) {
  check(p, n); acc(p, n, ok, 1);
  if (phase == 1 && flags & 1) {
    if (ok) finish("diverged", "compare-and-swap succeeds", 0);
    legal(p, n, fo);
    if (fo == 1 || fo >= 3) join(&clk[me], &dmsg); else join(&acqp[me], &dmsg);
    return;
  }
  if (phase == 1) seen(p);
  a_load(p, ok ? so : fo);
  if (!ok) return;
  overwritten(p, n);
  if (phase == 1 && flags & 2) {
    u64 now = get(p, n);
    memcpy(p, &casold, n); delayed(p, n, so); memcpy(p, &now, n);
  }
  a_store(p, so, 1);
}
u64 vpr_casold(u64 v) { return phase == 1 && flags & 1 ? dold : v; }
void vpr_fence(int order) {
  if (phase != 1) return;
  if (order == 1 || order >= 3) join(&clk[me], &acqp[me]);
  if (order == 4) { join(&clk[me], &scv); join(&scv, &clk[me]); }
  if (order >= 2) { relf[me] = clk[me]; clk[me].c[me]++; }
}
// -------------------------------------------------------------- schedule
static void handover(void) {      // mu held; let the owner of the next step run
  cur = pos < vp_nsched ? vp_sched[pos].tid : MAXT;
  pthread_cond_broadcast(&cv);
}
static void await_turn(void) {    // mu held
  if (cur == me && pos < vp_nsched && vp_sched[pos].tid == me) { pos++; return; }
  handover();
  while (!(cur == me && pos < vp_nsched && vp_sched[pos].tid == me)) pthread_cond_wait(&cv, &mu);
  pos++;
}
static char logbuf[1 << 20]; static int loglen;
static void lg(int site) { if (loglen < (int)sizeof logbuf - 40) loglen += sprintf(logbuf + loglen, "%d:%d ", me, site); }
void vpr_val(u64 v) { if (phase == 1 && loglen < (int)sizeof logbuf - 40) loglen += sprintf(logbuf + loglen, "=%llx ", (unsigned long long)v); }
static u64 steps;
void vpr_point(int site) {
  if (phase != 1) { if (++steps > 2000000) viol("hang", phase == 3 ? "a thread running alone does not finish" : "sequential code does not terminate", 0); return; }
  int k = ptpos[me]++;
  flags = 0;
  if (k >= vp_per_len[me]) {      // beyond the recorded part: suspended for ever
    pthread_mutex_lock(&mu);
    handover();
    for (;;) {
      if (phase == 3 && vp_solo == me) { pthread_mutex_unlock(&mu); return; }
      pthread_cond_wait(&cv, &mu);
    }
  }
  const struct sched *s = &vp_per[vp_per_off[me] + k];
  if (s->site != site) { char b[80]; snprintf(b, 80, "at %d expected %d", site, s->site); finish("diverged", b, 0); }
  if (s->point) { pthread_mutex_lock(&mu); await_turn(); pthread_mutex_unlock(&mu); }
  blkkind[me] = 0;
  flags = s->flags;
  lg(site);
}
static void *tmain(void *x) {
  me = (int)(intptr_t)x;
  pthread_mutex_lock(&mu);
  while (!(cur == me && pos < vp_nsched && vp_sched[pos].tid == me)) pthread_cond_wait(&cv, &mu);
  pos++;
  pthread_mutex_unlock(&mu);
  vp_threads[me]();
  pthread_mutex_lock(&mu);
  for (int i = 0; i < nobjs; i++) if (objs[i].kind == 'a' && objs[i].owner == me) objs[i].alive = 0;
  done[me] = 1;
  pthread_cond_broadcast(&cv);
  handover();
  for (;;) pthread_cond_wait(&cv, &mu);   // keep the stack mapped
}
// -------------------------------------------------------------- externals
void vp_assert(int c, u32 id) { if (!(c & 1)) viol("assert", "assertion failed", (int)id); }
void vp_assume(int c) { if (!(c & 1)) finish("assume", "assumption not met", 0); }
u64 vp_any(u64 max) { int k = anypos[me]++; u64 v = k < vp_any_len[me] ? vp_anys[vp_any_off[me] + k] : 0; return v > max ? max : v; }
// three calls, one lap of the queue apart: words that advanced by the same amount twice advance k times more
void vp_laps(u64 *p, u64 n, u64 k) {
  static u64 snap[2][512]; static int calls; u64 w = n / 8; int i = calls++;
  if (w > 512) finish("diverged", "vp_laps: region too large", 0);
  if (i < 2) { memcpy(snap[i], p, w * 8); return; }
  for (u64 j = 0; j < w; j++) if (p[j] - snap[1][j] != snap[1][j] - snap[0][j]) return;
  for (u64 j = 0; j < w; j++) p[j] += k * (p[j] - snap[1][j]);
}
static u64 ghost[4096];
void vp_gset(u64 i, u64 v) { ghost[i & 4095] = v; }
u64 vp_gget(u64 i) { return ghost[i & 4095]; }
static u64 last;
u64 vp_now(void) { int k = nowpos[me]++; u64 v = k < vp_now_len[me] ? vp_nows[vp_now_off[me] + k] : last; if (v < last) v = last; return last = v; }
static int wref[256], woken[256];
static u8 taskcell[256];
void vp_wclone(u64 i) { wref[i & 255]++; }
void vp_wdrop(u64 i) { if (wref[i & 255]-- <= 0) viol("waker", "waker released twice", 0); }
void vp_wake(u64 i) { if (wref[i & 255] <= 0) viol("waker", "wake through a released waker", 0); woken[i & 255] = 1; acc(&taskcell[i & 255], 1, 1, 1); a_store(&taskcell[i & 255], 2, 1); }
u64 vp_woken(u64 i) { return woken[i & 255]; }
static u64 *panicglobal; static int unw[MAXT + 1];
void vpr_panicglobal(u64 *p) { panicglobal = p; }
_Bool vpr_not_unwinding(void) { return !unw[me]; }
void vp_unwinding(int on) { on &= 1; if (panicglobal) *panicglobal += on - unw[me]; unw[me] = on; }
u64 vp_wrefs(u64 i) { return wref[i & 255]; }
u64 vp_done(u64 i) { return done[i]; }
void vp_yield(void) {}
static void stuck(void) { if (phase == 3) { if (vp_solo_any) viol("hang", "a non-blocking operation sleeps", 0); finish("ok", "falls asleep", 0); } if (phase != 1) viol("deadlock", "sequential code blocks", 0); finish("diverged", "blocked although the model proceeds", 0); }
void vp_wait(u64 i) { if (!woken[i & 255]) stuck(); woken[i & 255] = 0; a_load(&taskcell[i & 255], 1); }
void vp_panic(void) { viol("panic", "the code panics", 0); for (;;) ; }
extern const int vp_noalloc, vp_spurious_park;
void *vpr_alloc(u64 n) { if (vp_noalloc && phase == 1) viol("alloc", "allocation after construction", 0); void *p = malloc(n + 64); memset(p, vp_fill, n + 64); addobj(p, n, 'h'); return p; }
void *vpr_alloc_zeroed(u64 n) { void *p = vpr_alloc(n); memset(p, 0, n); return p; }
void vpr_dealloc(void *p) { struct obj *o = find(p); if (!o || o->p != p || o->kind != 'h') viol("wild", "free of a non-heap pointer", 0); if (!o->alive) viol("uaf", "double free", 0); access_na(p, o->n, 1); o->alive = 0; }
void *vpr_realloc(u8 *p, u64 o, u64 n) { u8 *q = vpr_alloc(n); struct obj *ob = find(p); if (!ob || ob->p != p || ob->kind != 'h') viol("wild", "realloc of a non-heap pointer", 0); if (!ob->alive) viol("uaf", "realloc after free", 0); memcpy(q, p, o < n ? o : n); vpr_dealloc(p); return q; }
static struct { u64 rc; u64 a[4]; u32 futex, pad; u64 z[2]; } th[MAXT + 1];
void *vpr_current(void) { return &th[me]; }
void vpr_park(void) { if (phase != 1 && phase != 3) stuck(); if (th[me].futex != 1 && !vp_spurious_park) stuck(); th[me].futex = 0; a_load((u8 *)&th[me].futex, 1); }
void vpr_park_timeout(u64 sec, u32 ns) { if (phase == 3 && th[me].futex != 1 && sec < 1000000) last += 2 * sec + (ns ? ns > 500000000 ? 2 : 1 : 0); th[me].futex = 0; a_load((u8 *)&th[me].futex, 1); }
void vpr_lock(u8 *p) { check(p, 1); if (*p & 1) stuck(); *p |= 1; acc(p, 1, 1, 1); a_load(p, 1); }
void vpr_unlock(u8 *p) { check(p, 1); a_store(p, 2, 1); *p = 0; }
void *memcpy_(void *d, const void *s, size_t n) { return memcpy(d, s, n); }

static void segv(int s) { char b[60]; snprintf(b, 60, "signal %d", s); viol(s == SIGILL || s == SIGTRAP ? "ub" : "wild", b, 0); }
static void alrm(int s) { (void)s; viol("hang", phase == 2 ? "sequential code does not terminate" : "replay did not terminate", phase); }
int main(void) {
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = segv; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGTRAP, &sa, 0); sigaction(SIGFPE, &sa, 0);
  sa.sa_handler = alrm; sigaction(SIGALRM, &sa, 0);
  alarm(20);
  for (int i = 0; i <= MAXT; i++) { th[i].rc = 100; for (int j = 0; j < 4; j++) th[i].a[j] = i + 1; th[i].z[0] = th[i].z[1] = i + 1; th[i].futex = 0; addobj(&th[i], 64, 't'); clk[i].c[i] = 1; }
  vp_globals();
  vp_call_setup();
  for (int i = 0; i < MAXT; i++) clk[i].c[MAXT] = 1000000;
  phase = 1;
  pthread_mutex_lock(&mu);
  static pthread_t ids[MAXT];
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < vp_nthreads; i++) pthread_create(&ids[i], &at, tmain, (void *)(intptr_t)i);
  handover();
  while (!(cur == MAXT && pos >= vp_nsched)) pthread_cond_wait(&cv, &mu);
  // the last thread to move has reached its next point or has finished
  int alldone = 1, allblocked = 1;
  for (int i = 0; i < vp_nthreads; i++) {
    if (done[i]) continue;
    alldone = 0;
    int en = 1;
    if (blkkind[i] == 1) en = !(*(volatile u8 *)blkarg[i] & 1);
    if (blkkind[i] == 2) en = th[i].futex == 1 || vp_spurious_park;
    if (blkkind[i] == 3) en = woken[blkarg[i] & 255];
    if (en) allblocked = 0;
  }
  if (!alldone && allblocked) viol("deadlock", "every unfinished thread is blocked", 0);
  if (vp_solo >= 0 && !done[vp_solo]) {
    phase = 3;
    pthread_cond_broadcast(&cv);
    while (!done[vp_solo]) pthread_cond_wait(&cv, &mu);
    finish("ok", "the thread finishes", 0);
  }
  phase = 2;
  pthread_mutex_unlock(&mu);
  if (alldone && vp_have_fin) vp_call_fin();
  if (vp_have_probe) vp_call_probe();
  out("LOG "); out(logbuf); out("\n");
  finish("ok", alldone ? "all threads finished" : "schedule exhausted", alldone);
}
