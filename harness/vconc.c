/* Controlled scheduler: several runtimes share one data block; every schedule up to a preemption bound is run on the
 * real library.  The library is compiled with -fsanitize=thread and linked against this file instead of the real
 * run-time: each access to shared memory (data blocks and what is allocated with malloc while the threads run, static
 * data of the library) is a scheduling point, and so are pthread mutexes and condition variables (--wrap). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <pthread.h>
#include <errno.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <ratjs.h>

#define NOI __attribute__((no_sanitize("thread")))
#define MAXT 4
#define STK (4 << 20)
enum { RUN, MUT, CW, DONE };
typedef struct { ucontext_t uc; char *stk; int st, rc, timed; void *m, *c; RJS_Runtime *rt; RJS_Value *fn, *res; char log[512]; int ln, nlog; int bad; } Co;
static Co co[MAXT]; static ucontext_t mainc; static int nt, cur = -1, active, drain, pb, spurmax, pre, spur;
static int thr_flags;

/* ---- outcome text ---- */
static char out[1 << 16]; static int on;
static void oput (const char *s) { int n = strlen(s); if (on + n < (int)sizeof(out) - 1) { memcpy(out + on, s, n + 1); on += n; } }

/* ---- the decisions of one schedule, depth first ---- */
typedef struct { unsigned char n, c; } Dec;
static Dec *dec; static int dl, dd, dcap; static long divg, points, maxd;
static int choose (int n)
{
    if (n <= 1 || drain) return 0;
    if (dd < dl) {
        if (dec[dd].n != n) {
            divg ++; dec[dd].n = n; if (dec[dd].c >= n) dec[dd].c = n - 1; dl = dd + 1; }
        return dec[dd ++].c;
    }
    if (dl == dcap) { dcap = dcap ? dcap * 2 : 1024; dec = realloc(dec, dcap * sizeof(Dec)); }
    dec[dl].n = n; dec[dl].c = 0; dl ++; dd ++; if (dd > maxd) maxd = dd;
    return 0;
}
static const char *fatal_id = ""; static long sched_n;
static void fatal (const char *what)
{
    int i; printf("%s\t%ld\t%ld\t%ld\t0\t%ld\t1\n!%s\t", fatal_id, sched_n, points, divg, maxd, what);
    for (i = 0; i < dd; i ++) printf("%d", dec[i].c);
    printf("\n"); fflush(stdout); _exit(3);
}
static int terminal;
static void go (int t) { int o = cur; cur = t; if (o == t) return; if (o < 0) swapcontext(&mainc, &co[t].uc); else swapcontext(&co[o].uc, &co[t].uc); }
static void tomain (void) { int o = cur; cur = -1; swapcontext(&co[o].uc, &mainc); }
static void sched (int freesw)
{
    struct { int t, k; } op[32]; int n = 0, i, c, curok = cur >= 0 && co[cur].st == RUN;
    points ++;
    if (curok) { op[n].t = cur; op[n ++].k = 0; if (!freesw && (drain || pre >= pb)) return; }
    for (i = 0; i < nt; i ++) if (i != cur && co[i].st == RUN) { op[n].t = i; op[n ++].k = 0; }
    for (i = 0; i < nt; i ++) if (co[i].st == CW && co[i].timed) { op[n].t = i; op[n ++].k = 1; }
    if (!n && !drain) { op[n].t = -1; op[n ++].k = 3; }
    if (!drain && spur < spurmax) for (i = 0; i < nt; i ++) if (co[i].st == CW) { op[n].t = i; op[n ++].k = 2; }
    if (drain && !n) { tomain(); return; }
    c = choose(n);
    if (op[c].k == 3) { terminal = 1; tomain(); return; }
    if (curok && op[c].t != cur && !freesw) pre ++;
    if (op[c].k == 1) { co[op[c].t].st = RUN; co[op[c].t].rc = ETIMEDOUT; co[op[c].t].c = NULL; }
    if (op[c].k == 2) { spur ++; co[op[c].t].st = RUN; co[op[c].t].rc = 0; co[op[c].t].c = NULL; }
    go(op[c].t);
}

/* ---- shared memory ---- */
typedef struct { char *lo, *hi; int freed; } Reg;
#define ARENA (256 << 20)
static Reg regs[8192]; static int nreg, track; static char *arena = (char*)(1ul << 62), *abump; static void *afree[65]; /* by 16 bytes */
extern char __data_start[], edata[], __bss_start[], end[];
static unsigned char *dirty;
static inline NOI int shared (void *a, size_t n, int w)
{
    char *p = a; int i;
    if (p < end && p + n > __data_start) {
        if (p >= __bss_start) return 1;
        if (!dirty) dirty = calloc(1, (edata - __data_start) / 8 + 2);
        i = (p - __data_start) / 8;
        if (i >= 0 && p < edata) {
            if (w && !dirty[i])
                dirty[i] = 1;
            return dirty[i]; }
        return 1;
    }
    for (i = nreg - 1; i >= 0; i --) if (p < regs[i].hi && p + n > regs[i].lo) { if (regs[i].freed) fatal("use after free"); return 1; }
    return 0;
}
#define NEAR(a) ((size_t)((char*)(a) - arena) < ARENA || (size_t)((char*)(a) - __data_start) < (size_t)(end - __data_start))
#define PT(a,n,w) do { if (NEAR(a) && active && cur >= 0 && shared(a, n, w)) { sched(0); if (active) shared(a, n, w); } } while (0)
extern void *__real_malloc (size_t); extern void __real_free (void *);
static void *reg_add (size_t n)
{
    size_t k; char *p;
    n = n ? (n + 15) & ~15ul : 16; k = n / 16;
    if (!abump) { arena = abump = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    if (nreg == 8192) fatal("too many blocks");
    if (k < 65 && afree[k]) { p = afree[k]; afree[k] = *(void**)p; }
    else { p = abump; abump += n; if (abump > arena + ARENA) fatal("too much memory"); }
    regs[nreg].lo = p; regs[nreg].hi = p + n; regs[nreg ++].freed = 0;
    return p;
}
static int reg_alive (void) { int i, n = 0; for (i = 0; i < nreg; i ++) n += !regs[i].freed; return n; }
static void reg_flush (void)
{
    int i, j = 0;
    for (i = 0; i < nreg; i ++) {
        if (regs[i].freed) { size_t k = (regs[i].hi - regs[i].lo) / 16; if (k < 65) { *(void**)regs[i].lo = afree[k]; afree[k] = regs[i].lo; } continue; }
        regs[j ++] = regs[i];
    }
    nreg = j;
}
extern void *__real_realloc (void *, size_t);
void *__wrap_malloc (size_t n) { return track && n < 1024 ? reg_add(n) : __real_malloc(n); }
void __wrap_free (void *p)
{
    int i;
    if (!p) return;
    if ((size_t)((char*)p - arena) >= ARENA) { __real_free(p); return; }
    for (i = nreg - 1; i >= 0; i --) if (regs[i].lo == p) { if (regs[i].freed) fatal("double free"); regs[i].freed = 1; return; }
    fatal("free of an unknown block");
}
void *__wrap_realloc (void *p, size_t n)
{
    int i; void *q;
    if (!p || (size_t)((char*)p - arena) >= ARENA) return __real_realloc(p, n);
    for (i = nreg - 1; i >= 0; i --) if (regs[i].lo == p && !regs[i].freed) { size_t o = regs[i].hi - regs[i].lo; q = reg_add(n); __builtin_memcpy(q, p, o < n ? o : n); __wrap_free(p); return q; }
    fatal("realloc of an unknown block"); return NULL;
}

/* ---- instrumentation callbacks ---- */
void __tsan_init (void) {}
void __tsan_func_entry (void *p) {}
void __tsan_func_exit (void) {}
#define RW(n) void __tsan_read##n (void *a) { PT(a, n, 0); } void __tsan_write##n (void *a) { PT(a, n, 1); } \
  void __tsan_unaligned_read##n (void *a) { PT(a, n, 0); } void __tsan_unaligned_write##n (void *a) { PT(a, n, 1); } \
  void __tsan_volatile_read##n (void *a) { PT(a, n, 0); } void __tsan_volatile_write##n (void *a) { PT(a, n, 1); } \
  void __tsan_read_write##n (void *a) { PT(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range (void *a, unsigned long n) { PT(a, n, 0); }
void __tsan_write_range (void *a, unsigned long n) { PT(a, n, 1); }
void __tsan_vptr_update (void **a, void *b) {}
void __tsan_vptr_read (void **a) {}
#define AT(b,t) \
 t __tsan_atomic##b##_load (const volatile t *a, int m) { PT((void*)a, b / 8, 0); return *a; } \
 void __tsan_atomic##b##_store (volatile t *a, t v, int m) { PT((void*)a, b / 8, 1); *a = v; } \
 t __tsan_atomic##b##_exchange (volatile t *a, t v, int m) { t o; PT((void*)a, b / 8, 1); o = *a; *a = v; return o; } \
 t __tsan_atomic##b##_fetch_add (volatile t *a, t v, int m) { t o; PT((void*)a, b / 8, 1); o = *a; *a = o + v; return o; } \
 t __tsan_atomic##b##_fetch_sub (volatile t *a, t v, int m) { t o; PT((void*)a, b / 8, 1); o = *a; *a = o - v; return o; } \
 t __tsan_atomic##b##_fetch_and (volatile t *a, t v, int m) { t o; PT((void*)a, b / 8, 1); o = *a; *a = o & v; return o; } \
 t __tsan_atomic##b##_fetch_or (volatile t *a, t v, int m) { t o; PT((void*)a, b / 8, 1); o = *a; *a = o | v; return o; } \
 t __tsan_atomic##b##_fetch_xor (volatile t *a, t v, int m) { t o; PT((void*)a, b / 8, 1); o = *a; *a = o ^ v; return o; } \
 t __tsan_atomic##b##_fetch_nand (volatile t *a, t v, int m) { t o; PT((void*)a, b / 8, 1); o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong (volatile t *a, t *c, t v, int m, int f) { t o; PT((void*)a, b / 8, 1); o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak (volatile t *a, t *c, t v, int m, int f) { t o; PT((void*)a, b / 8, 1); o = *a; if (o == *c) { if (active && choose(2)) return 0; *a = v; return 1; } *c = o; return 0; } \
 t __tsan_atomic##b##_compare_exchange_val (volatile t *a, t c, t v, int m, int f) { t o; PT((void*)a, b / 8, 1); o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence (int m) { }
void __tsan_atomic_signal_fence (int m) { }
extern void *__real_memcpy (void *, const void *, size_t); extern void *__real_memmove (void *, const void *, size_t); extern void *__real_memset (void *, int, size_t);
static int anyshared (const void *p, size_t n, int w) { return NEAR(p) && active && cur >= 0 && n && shared((void*)p, n, w); }
void *__wrap_memmove (void *d, const void *s, size_t n)
{
    size_t i; char *a = d; const char *b = s;
    if (!anyshared(d, n, 1) && !anyshared(s, n, 0)) return __real_memmove(d, s, n);
    if (a <= b || a >= b + n) for (i = 0; i < n; i ++) { PT((void*)(b + i), 1, 0); PT(a + i, 1, 1); a[i] = b[i]; }
    else for (i = n; i -- > 0;) { PT((void*)(b + i), 1, 0); PT(a + i, 1, 1); a[i] = b[i]; }
    return d;
}
void *__wrap_memcpy (void *d, const void *s, size_t n) { return __wrap_memmove(d, s, n); }
void *__wrap_memset (void *d, int c, size_t n)
{
    size_t i; if (!anyshared(d, n, 1)) return __real_memset(d, c, n);
    for (i = 0; i < n; i ++) { PT((char*)d + i, 1, 1); ((char*)d)[i] = c; }
    return d;
}

/* ---- locks ---- */
static struct { void *m; int own, depth, kind; } mx[256]; static int nmx;
static int mxi (void *m) { int i; for (i = 0; i < nmx; i ++) if (mx[i].m == m) return i; if (nmx == 256) fatal("too many locks"); mx[nmx].m = m; mx[nmx].own = -2; return nmx ++; }
static void lock (void *m)
{
    int i = mxi(m);
    while (mx[i].own != -2) {
        if (!active || cur < 0) fatal(mx[i].own == -1 ? "lock taken twice" : "lock still held");
        if (drain && mx[i].own == cur) fatal("deadlock");
        co[cur].st = MUT; co[cur].m = m; sched(0); i = mxi(m);
    }
    mx[i].own = active ? cur : -1; 
}
static void unlock (void *m)
{
    int i = mxi(m), t;
    if (mx[i].own == -2) fatal("unlock of a free lock");
    if (mx[i].own != (active ? cur : -1)) fatal("unlock of a lock held by another thread");
    mx[i].own = -2;
    for (t = 0; t < nt; t ++) if (co[t].st == MUT && co[t].m == m) co[t].st = RUN;
}
int __wrap_pthread_mutex_init (pthread_mutex_t *m, const pthread_mutexattr_t *a) { int i = mxi(m); mx[i].own = -2; return 0; }
int __wrap_pthread_mutex_destroy (pthread_mutex_t *m) { int i = mxi(m); if (mx[i].own != -2) fatal("destroyed a held lock"); mx[i] = mx[-- nmx]; return 0; }
int __wrap_pthread_mutex_lock (pthread_mutex_t *m) { if (active && cur >= 0) { if (NEAR(m)) shared(m, 1, 0); sched(0); } lock(m); return 0; }
int __wrap_pthread_mutex_trylock (pthread_mutex_t *m) { if (active && cur >= 0) sched(0); if (mx[mxi(m)].own != -2) return EBUSY; lock(m); return 0; }
int __wrap_pthread_mutex_unlock (pthread_mutex_t *m) { if (active && cur >= 0 && NEAR(m)) shared(m, 1, 0); unlock(m); if (active && cur >= 0) sched(0); return 0; }
int __wrap_pthread_cond_init (pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int __wrap_pthread_cond_destroy (pthread_cond_t *c) { int t; for (t = 0; t < nt; t ++) if (co[t].st == CW && co[t].c == c) fatal("destroyed a condition variable with waiters"); return 0; }
static int cwait (void *c, void *m, int timed)
{
    int r; if (!active || cur < 0) fatal("wait outside of the threads");
    unlock(m); co[cur].st = CW; co[cur].c = c; co[cur].timed = timed; co[cur].rc = 0;
    sched(0); r = co[cur].rc; sched(1); lock(m); return r;
}
int __wrap_pthread_cond_wait (pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, 0); }
int __wrap_pthread_cond_timedwait (pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
    if (ts->tv_sec > 200000000000LL) return cwait(c, m, 0);  /* never fires */
    return cwait(c, m, 1);
}
static int csig (void *c, int all)
{
    int t, w[MAXT], n = 0;
    if (active && cur >= 0 && NEAR(c)) shared(c, 1, 0);
    for (t = 0; t < nt; t ++) if (co[t].st == CW && co[t].c == c) w[n ++] = t;
    if (n && all) for (t = 0; t < n; t ++) { co[w[t]].st = RUN; co[w[t]].rc = 0; co[w[t]].c = NULL; }
    else if (n) { t = w[active ? choose(n) : 0]; co[t].st = RUN; co[t].rc = 0; co[t].c = NULL; }
    if (active && cur >= 0) sched(0);
    return 0;
}
int __wrap_pthread_cond_signal (pthread_cond_t *c) { return csig(c, 0); }
int __wrap_pthread_cond_broadcast (pthread_cond_t *c) { return csig(c, 1); }
int __wrap_pthread_once (pthread_once_t *o, void (*f)(void)) { static pthread_once_t *seen[16]; static int n; int i; for (i = 0; i < n; i ++) if (seen[i] == o) return 0; seen[n ++] = o; i = active; active = 0; f(); active = i; return 0; }

/* ---- the programs ---- */
static RJS_DataBlock *db[2]; static size_t dbsz[2];
static int rti (RJS_Runtime *rt) { int i; for (i = 0; i < MAXT; i ++) if (co[i].rt == rt) return i; return -1; }
static RJS_NF(h_gc) { rjs_gc_run(rt); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_dup) /* one more SharedArrayBuffer object over the data block of the argument */
{
    int32_t k = 0; rjs_to_int32(rt, rjs_argument_get(rt, args, argc, 0), &k);
    return rjs_allocate_shared_array_buffer(rt, co[rti(rt)].res, dbsz[k & 1], db[k & 1], rv);
}
static RJS_NF(h_newrt) /* a runtime of its own: made, used and freed */
{
    RJS_Runtime *r2 = rjs_runtime_new(); size_t top = rjs_value_stack_save(r2);
    RJS_Value *s = rjs_value_stack_push(r2), *sc = rjs_value_stack_push(r2), *v = rjs_value_stack_push(r2); RJS_Number n = -1;
    rjs_string_from_enc_chars(r2, s, "[1,2,3].map(x=>x*2).reduce((a,b)=>a+b)", -1, NULL);
    if (rjs_script_from_string(r2, sc, s, NULL, RJS_FALSE) != RJS_ERR && rjs_script_evaluation(r2, sc, v) != RJS_ERR) rjs_to_number(r2, v, &n);
    rjs_value_stack_restore(r2, top); rjs_runtime_free(r2);
    rjs_value_set_number(rt, rv, n); return RJS_OK;
}
static void add_fn (RJS_Runtime *rt, const char *name, RJS_NativeFunc nf)
{
    size_t top = rjs_value_stack_save(rt); RJS_Realm *realm = rjs_realm_current(rt);
    RJS_Value *n = rjs_value_stack_push(rt), *f = rjs_value_stack_push(rt); RJS_PropertyName pn;
    rjs_string_from_chars(rt, n, name, -1);
    rjs_create_builtin_function(rt, NULL, nf, 0, n, realm, NULL, NULL, f);
    rjs_property_name_init(rt, &pn, n);
    rjs_create_data_property_or_throw(rt, rjs_global_object(realm), &pn, f);
    rjs_property_name_deinit(rt, &pn);
    rjs_value_stack_restore(rt, top);
}
static RJS_Result eval (RJS_Runtime *rt, const char *src, size_t n, RJS_Value *v)
{
    size_t top = rjs_value_stack_save(rt); RJS_Result r;
    RJS_Value *s = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt);
    rjs_string_from_enc_chars(rt, s, src, n, NULL);
    r = rjs_script_from_string(rt, sc, s, NULL, RJS_FALSE);
    if (r != RJS_ERR) r = rjs_script_evaluation(rt, sc, v);
    rjs_value_stack_restore(rt, top); return r;
}
static const char boot[] = "var run, __main = function () { try { run() } catch (e) { __r('!' + e.name + ': ' + e.message) } };";
static RJS_NF(h_r) /* one result of this thread */
{
    RJS_Value *v = rjs_argument_get(rt, args, argc, 0); Co *c = &co[rti(rt)]; char b[200]; size_t top = rjs_value_stack_save(rt);
    if (rjs_value_is_number(rt, v)) snprintf(b, sizeof(b), "%.17g", rjs_value_get_number(rt, v));
    else { RJS_Value *s = rjs_value_stack_push(rt); const char *t; rjs_to_string(rt, v, s); t = rjs_string_to_enc_chars(rt, s, NULL, NULL); snprintf(b, sizeof(b), "%s%s", t ? t : "?", rjs_value_is_big_int(rt, v) ? "n" : ""); }
    rjs_value_stack_restore(rt, top);
    if (c->ln + strlen(b) + 2 < sizeof(c->log)) { if (c->nlog ++) c->log[c->ln ++] = ','; strcpy(c->log + c->ln, b); c->ln += strlen(b); }
    rjs_value_set_undefined(rt, rv); return RJS_OK;
}
static void mk_rt (int i)
{
    co[i].rt = rjs_runtime_new(); eval(co[i].rt, boot, strlen(boot), NULL);
    co[i].fn = rjs_value_stack_push(co[i].rt); eval(co[i].rt, "__main", 6, co[i].fn);
    co[i].res = rjs_value_stack_push(co[i].rt); eval(co[i].rt, "SharedArrayBuffer", 17, co[i].res);
    add_fn(co[i].rt, "__r", h_r); add_fn(co[i].rt, "__gc", h_gc); add_fn(co[i].rt, "__dup", h_dup); add_fn(co[i].rt, "__newrt", h_newrt);
}
static void body (int i)
{
    RJS_Runtime *rt = co[i].rt;
    if (rjs_call(rt, co[i].fn, rjs_v_undefined(rt), NULL, 0, NULL) == RJS_ERR) co[i].bad = 1;
    co[i].st = DONE; sched(0);
    for (;;) tomain();
}
static void boot_co (int i)
{
    getcontext(&co[i].uc); if (!co[i].stk) co[i].stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    co[i].uc.uc_stack.ss_sp = co[i].stk; co[i].uc.uc_stack.ss_size = STK; co[i].uc.uc_link = &mainc;
    makecontext(&co[i].uc, (void(*)(void))body, 1, i); co[i].st = RUN; co[i].bad = 0; co[i].ln = co[i].nlog = 0; co[i].log[0] = 0; co[i].c = co[i].m = NULL; co[i].rc = 0;
}
static void put_logs (void)
{
    int i;
    for (i = 0; i < nt; i ++) {
        if (i) oput(" | ");
        oput(co[i].log);
        if (co[i].bad) oput("!");
        if (co[i].st != DONE) oput(" blocked");
    }
    oput(" # ");
}
static void put_mem (void) { size_t i; char b[4]; if (db[0]) for (i = 0; i < dbsz[0]; i ++) { snprintf(b, 4, "%02x", rjs_data_block_get_buffer(db[0])[i]); oput(b); } }
static char *init; static size_t initn;
static void mk_db (int k)
{
    int i; char s[64];
    track = 1; db[k] = rjs_data_block_new(dbsz[k], RJS_DATA_BLOCK_FL_SHARED); track = 0;
    for (i = 0; i < MAXT; i ++) { snprintf(s, sizeof(s), k ? "var sab2 = __dup(1)" : "var sab = __dup(0)"); eval(co[i].rt, s, strlen(s), NULL); }
}
static void drop_db (int k)
{
    int i; for (i = 0; i < MAXT; i ++) { eval(co[i].rt, k ? "sab2 = null" : "sab = null", k ? 11 : 10, NULL); }
    if (db[k]) rjs_data_block_unref(db[k]); db[k] = NULL;
}
static struct { char *s; long n; char *ch; } outs[4096]; static int nouts; static int truncated;
static void one_schedule (int noexplore)
{
    int i, ok;
    if (thr_flags & 1) { for (i = 0; i < 2; i ++) if (dbsz[i]) mk_db(i); for (i = 0; i < 2; i ++) if (dbsz[i]) { rjs_data_block_unref(db[i]); } eval(co[3].rt, "sab=null;__gc()", 15, NULL); }
    else for (i = 0; i < 2; i ++) if (dbsz[i]) { __real_memset(rjs_data_block_get_buffer(db[i]), 0, dbsz[i]); if (!i) __real_memcpy(rjs_data_block_get_buffer(db[i]), init, initn < dbsz[i] ? initn : dbsz[i]); }
    for (i = 0; i < nt; i ++) boot_co(i);
    on = 0; out[0] = 0; pre = spur = 0; dd = 0; terminal = 0; drain = noexplore; track = 1; active = 1; cur = -1;
    if (noexplore == 0) { cur = -1; sched(1); } else for (i = 0; i < nt; i ++) if (co[i].st == RUN) go(i);
    active = 0; track = 0;
    for (i = 0, ok = 1; i < nt; i ++) if (co[i].st != DONE) ok = 0;
    if (!ok && !noexplore) for (i = 0; i < nt; i ++) if (co[i].st == MUT) fatal("deadlock");
    put_logs(); if (!(thr_flags & 2)) put_mem();
    if (!ok) { /* wake every waiter through the public operation; nothing may stay blocked */
        int tries;
        for (tries = 0; tries < 3 && !ok; tries ++) {
            static const char nf[] = "(function(){ for (const S of [Int32Array, BigInt64Array]) { const a = new S(sab); for (let i = 0; i < a.length; i ++) Atomics.notify(a, i); } })()";
            cur = -1; eval(co[3].rt, nf, strlen(nf), NULL);
            drain = 1; active = 1; track = 1;
            for (i = 0; i < nt; i ++) if (co[i].st == RUN) go(i);
            active = 0; track = 0;
            for (i = 0, ok = 1; i < nt; i ++) if (co[i].st != DONE) ok = 0;
        }
        if (!ok) fatal("a waiter was not woken by notify");
    }
    drain = 0;
    if (thr_flags & 1) {
        char b[64]; int f = 0; char *p = (char*)db[0];
        for (i = 0; i < MAXT; i ++) eval(co[i].rt, "sab=null;0", 10, NULL), rjs_gc_run(co[i].rt);
        for (i = 0; i < nreg; i ++) if (regs[i].lo == p) f = regs[i].freed;
        snprintf(b, sizeof(b), f ? "freed" : "NOT FREED"); oput(b); db[0] = db[1] = NULL;
    }
    for (i = 0; i < nmx; i ++) if (mx[i].own != -2) fatal("a lock is still held at the end");
    reg_flush();
}
static void record (void)
{
    int i, j; for (i = 0; i < nouts; i ++) if (!strcmp(outs[i].s, out)) { outs[i].n ++; return; }
    if (nouts == 4096) { truncated = 1; return; }
    outs[nouts].s = strdup(out); outs[nouts].n = 1; outs[nouts].ch = malloc(dl + 1);
    for (j = 0; j < dl; j ++) outs[nouts].ch[j] = '0' + dec[j].c; outs[nouts].ch[dl] = 0; nouts ++;
}
static void onsig (int s) { char b[64]; snprintf(b, sizeof(b), "signal %d", s); active = 0; fatal(b); }
static void ontmo (int s) { active = 0; fatal("no progress"); }
int main (int argc, char **argv)
{
    char line[4096], id[256], hex[2048]; int i; long maxs;
    static char altstk[65536]; stack_t ss = { .ss_sp = altstk, .ss_size = sizeof(altstk) }; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
    sa.sa_handler = ontmo; sigaction(SIGALRM, &sa, NULL);
    for (i = 0; i < MAXT; i ++) mk_rt(i);
    while (fgets(line, sizeof(line), stdin)) {
        size_t n, ns; int timeout;
        hex[0] = 0;
        if (sscanf(line, "P %255s %d %d %d %d %zu %zu %ld %d %2000s", id, &nt, &pb, &spurmax, &thr_flags, &dbsz[0], &dbsz[1], &maxs, &timeout, hex) < 9) { fprintf(stderr, "bad input %s", line); return 2; }
        fatal_id = id; initn = hex[0] == '-' ? 0 : strlen(hex) / 2; init = realloc(init, initn + 1);
        for (n = 0; n < initn; n ++) { unsigned x; sscanf(hex + 2 * n, "%2x", &x); init[n] = x; }
        sched_n = points = divg = maxd = 0; nouts = 0; truncated = 0; dl = 0;
        if (!(thr_flags & 1)) for (i = 0; i < 2; i ++) if (dbsz[i]) mk_db(i);
        for (i = 0; i < nt; i ++) {
            char *b; if (!fgets(line, sizeof(line), stdin) || sscanf(line, "T %zu", &ns) != 1) return 2;
            b = malloc(ns + 1); if (fread(b, 1, ns, stdin) != ns) return 2; b[ns] = 0; getc(stdin);
            if (eval(co[i].rt, b, ns, NULL) == RJS_ERR) { fatal("script error"); }
            free(b);
        }
        alarm(timeout);
        one_schedule(1); on = 0; points = 0; divg = 0; maxd = 0; /* warm up: caches and free lists reach their steady state */
        one_schedule(1); points = 0;
        for (;;) {
            one_schedule(0); record(); sched_n ++;
            if (sched_n >= maxs) { truncated = 1; break; }
            dl = dd < dl ? dd : dl;
            while (dl && dec[dl - 1].c + 1 >= dec[dl - 1].n) dl --;
            if (!dl) break;
            dec[dl - 1].c ++;
        }
        alarm(0);
        if (!(thr_flags & 1)) for (i = 0; i < 2; i ++) if (dbsz[i]) drop_db(i);
        printf("%s\t%ld\t%ld\t%ld\t%d\t%ld\t%d\n", id, sched_n, points, divg, truncated, maxd, nouts);
        for (i = 0; i < nouts; i ++) { printf("%s\t%s\t%ld\n", outs[i].s, outs[i].ch, outs[i].n); free(outs[i].s); free(outs[i].ch); }
        fflush(stdout);
        for (i = 0; i < MAXT; i ++) rjs_gc_run(co[i].rt);
        reg_flush();
    }
    return 0;
}
