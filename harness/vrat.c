/* vrat: runs a file of cases against libratjs and writes one record per case.
 *
 *   vrat CASES OUT START STRIDE_RESET [gcmode]
 *
 * CASES: repeated records  "<kind> <nparts>\n" then per part "<namelen> <datalen>\n<name><data>\n"
 *   kind s : evaluate part 0 as a script, run jobs, output = the log
 *        m : module graph; part 0 is the entry; other parts are named modules
 *        p : parse part 0 as a script  -> "ok" / error name
 *        P : parse part 0 as a module
 *        S : like s, but the runtime is created anew for the case
 * The file may begin with "prelude <len>\n<data>\n": a script evaluated in each new runtime.
 * OUT: "<id> <len>\n<data>\n" per case, written at once with write(2).
 */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <ratjs.h>

typedef struct { char *name; size_t nlen; char *data; size_t dlen; } Part;

static char   *lb; static size_t ll, lc;
static Part   *cur_parts; static int cur_nparts;
static char   *prelude; static size_t prelude_len;
static RJS_Runtime *rt;
static int     mod_async;
static size_t  log_limit = 1 << 20;

static void lput (const char *s, size_t n)
{
    if (ll + n > log_limit) { if (ll < log_limit) { if (ll + 1 < lc) lb[ll ++] = '~'; } return; }
    if (ll + n + 1 > lc) { lc = (ll + n + 1) * 2; lb = realloc(lb, lc); if (!lb) abort(); }
    memcpy(lb + ll, s, n); ll += n;
}
static void lputs (const char *s) { lput(s, strlen(s)); }

/* Output a JS string; characters outside printable ASCII as \uXXXX, so no encoder is involved. */
static void lput_js (RJS_Runtime *rt, RJS_Value *v)
{
    size_t n = rjs_string_get_length(rt, v), i;
    for (i = 0; i < n; i ++) {
        int c = rjs_string_get_uchar(rt, v, i);
        char b[16];
        if (c == '\\') lput("\\\\", 2);
        else if (c >= 32 && c < 127) { b[0] = c; lput(b, 1); }
        else { snprintf(b, sizeof(b), "\\u%04x", c & 0xffff); lput(b, 6); }
    }
}

/* ---- forced collections and memory accounting (VRAT_GC) ---------------------------------------------
 * VRAT_GC=all   every case runs in a new runtime as it is, then in another with a collection at every allocation
 *        each  ... then once per allocation, with a collection at that allocation only
 *        leak  the case runs in a new runtime and all memory has to be given back when the runtime is freed
 * Freed memory is overwritten. The linker sends the library's allocation calls here. */
#include <malloc.h>
enum { GC_NO, GC_ALL, GC_EACH, GC_LEAK };
static int  gc_mode, gc_armed, poison;      /* gc_armed: 1 = at every allocation, 2 = at allocation gc_at */
static long gc_at, gc_n, gc_runs, gc_cap = 1200, live_blocks, live_bytes;
extern void __real_rjs_gc_add (RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops);
void __wrap_rjs_gc_add (RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops)
{
    __real_rjs_gc_add(rt, thing, ops);
    if (gc_mode && ((RJS_RuntimeBase*)rt)->gc_enable && !((RJS_RuntimeBase*)rt)->gc_running) {
        long k = gc_n ++;
        if ((gc_armed == 1 && gc_runs < gc_cap) || (gc_armed == 2 && k == gc_at)) { gc_runs ++; rjs_gc_run(rt); }
    }
}
extern void *__real_malloc (size_t n);
extern void *__real_calloc (size_t n, size_t m);
extern void *__real_realloc (void *p, size_t n);
extern void  __real_free (void *p);
void *__wrap_malloc (size_t n) { void *p = __real_malloc(n); if (p) { live_blocks ++; live_bytes += malloc_usable_size(p); } return p; }
void *__wrap_calloc (size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) { live_blocks ++; live_bytes += malloc_usable_size(p); } return p; }
void __wrap_free (void *p)
{
    if (!p) return;
    live_blocks --; live_bytes -= malloc_usable_size(p);
    if (poison) memset(p, 0xDB, malloc_usable_size(p));
    __real_free(p);
}
void *__wrap_realloc (void *p, size_t n)
{
    void *q; size_t o;
    if (!p) return __wrap_malloc(n);
    if (poison) {
        if (!n) { __wrap_free(p); return NULL; }
        o = malloc_usable_size(p);
        if (!(q = __wrap_malloc(n))) return NULL;
        memcpy(q, p, o < n ? o : n); __wrap_free(p); return q;
    }
    live_blocks --; live_bytes -= malloc_usable_size(p);
    q = __real_realloc(p, n);
    if (q) { live_blocks ++; live_bytes += malloc_usable_size(q); }
    else if (n) { live_blocks ++; live_bytes += malloc_usable_size(p); }
    return q;
}

static RJS_NF(h_log)
{
    size_t i, top = rjs_value_stack_save(rt);
    RJS_Value *s = rjs_value_stack_push(rt);
    for (i = 0; i < argc; i ++) {
        if (rjs_to_string(rt, rjs_argument_get(rt, args, argc, i), s) == RJS_ERR) { rjs_value_stack_restore(rt, top); return RJS_ERR; }
        if (i) lputs(" ");
        lput_js(rt, s);
    }
    lputs(";");
    rjs_value_set_undefined(rt, rv);
    rjs_value_stack_restore(rt, top);
    return RJS_OK;
}
static RJS_NF(h_gc) { rjs_gc_run(rt); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_jobs)
{
    size_t top = rjs_value_stack_save(rt); void *ctxt = ((RJS_RuntimeBase*)rt)->ctxt_stack, *bot = ((RJS_RuntimeBase*)rt)->bot_realm;
    rjs_solve_jobs(rt);
    if (rjs_value_stack_save(rt) != top) lputs("!stack;");
    if (((RJS_RuntimeBase*)rt)->ctxt_stack != ctxt) lputs("!ctxt;");
    if (((RJS_RuntimeBase*)rt)->bot_realm != bot) lputs("!realm;");
    rjs_value_set_undefined(rt, rv); return RJS_OK;
}
static RJS_NF(h_detach)
{
    RJS_Value *b = rjs_argument_get(rt, args, argc, 0);
    if (rjs_is_array_buffer(rt, b)) rjs_detach_array_buffer(rt, b);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
static void add_natives (RJS_Runtime *rt, RJS_Realm *realm);
static RJS_NF(h_realm)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *v = rjs_value_stack_push(rt);
    RJS_Realm *r = rjs_realm_new(rt, v);
    add_natives(rt, r);
    rjs_value_copy(rt, rv, rjs_global_object(r));
    rjs_value_stack_restore(rt, top);
    return RJS_OK;
}
static RJS_NF(h_tz)
{
    setenv("TZ", rjs_string_to_enc_chars(rt, rjs_argument_get(rt, args, argc, 0), NULL, NULL), 1);
    tzset();
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
static void log_value_name (RJS_Runtime *rt, RJS_Value *e);
/* native jobs and native calls (C26) */
static void nj_scan (RJS_Runtime *rt, void *d) { rjs_gc_scan_value(rt, (RJS_Value*)d); }
static void nj_free (RJS_Runtime *rt, void *d) { free(d); }
static void nj_run (RJS_Runtime *rt, void *d)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *e = rjs_value_stack_push(rt);
    if (rjs_call(rt, (RJS_Value*)d, rjs_v_undefined(rt), NULL, 0, NULL) == RJS_ERR) {
        if (rjs_catch(rt, e)) lputs("!e;"); else lputs("!noerr;");
    }
    rjs_value_stack_restore(rt, top);
}
static void uj_run (RJS_Runtime *rt, void *d) { rjs_call(rt, (RJS_Value*)d, rjs_v_undefined(rt), NULL, 0, NULL); }
static void add_job (RJS_Runtime *rt, RJS_Value *f, RJS_JobFunc run)
{
    RJS_Value *d = malloc(sizeof(RJS_Value));
    rjs_value_copy(rt, d, f);
    rjs_job_enqueue(rt, run, rjs_realm_current(rt), nj_scan, nj_free, d);
}
static RJS_NF(h_njob) { add_job(rt, rjs_argument_get(rt, args, argc, 0), nj_run); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_ujob) { add_job(rt, rjs_argument_get(rt, args, argc, 0), uj_run); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_ncall)
{
    size_t top = rjs_value_stack_save(rt), t2;
    RJS_Value *e = rjs_value_stack_push(rt), *fn = rjs_argument_get(rt, args, argc, 0), *sw = rjs_argument_get(rt, args, argc, 1);
    void *ctxt = ((RJS_RuntimeBase*)rt)->ctxt_stack; RJS_Result r;
    t2 = rjs_value_stack_save(rt);
    r = rjs_call(rt, fn, rjs_v_undefined(rt), NULL, 0, rv);
    if (rjs_value_stack_save(rt) != t2) lputs("!stack;");
    if (((RJS_RuntimeBase*)rt)->ctxt_stack != ctxt) lputs("!ctxt;");
    if (r == RJS_ERR && rjs_to_boolean(rt, sw)) {
        if (!rjs_catch(rt, e)) lputs("!noerr;");
        rjs_value_copy(rt, rv, e); r = RJS_OK;
    }
    rjs_value_stack_restore(rt, top);
    return r;
}
#define NEMB 26
static RJS_Value *em_get (RJS_Runtime *rt, const char *src, RJS_Value *v) /* value of an expression */
{
    size_t top = rjs_value_stack_save(rt); RJS_Value *s = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt);
    rjs_string_from_chars(rt, s, src, -1);
    if (rjs_script_from_string(rt, sc, s, NULL, RJS_FALSE) == RJS_ERR || rjs_script_evaluation(rt, sc, v) == RJS_ERR) lputs("!emget;");
    rjs_value_stack_restore(rt, top);
    return v;
}
static RJS_Result em_one (RJS_Runtime *rt, int op)
{
    size_t top = rjs_value_stack_save(rt); RJS_Result r = RJS_OK; RJS_Number n; RJS_PropertyName pn; RJS_Iterator it;
    RJS_Value *s = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt), *v = rjs_value_stack_push(rt), *f = rjs_value_stack_push(rt), *a = rjs_value_stack_push_n(rt, 2);
    static const char *ev[] = { "1+1", "throw new TypeError('x')", "1+", "(function(){try{throw 1}catch(e){return 5}})()" };
    switch (op) {
    case 0: case 1: case 2: case 3:
        rjs_string_from_chars(rt, s, ev[op], -1);
        if ((r = rjs_eval_from_string(rt, sc, s, NULL, RJS_FALSE, RJS_FALSE)) != RJS_ERR) r = rjs_eval_evaluation(rt, sc, RJS_FALSE, v);
        break;
    case 4: case 5: case 6: case 7:
        rjs_string_from_chars(rt, s, ev[op - 4], -1);
        if ((r = rjs_script_from_string(rt, sc, s, NULL, RJS_FALSE)) != RJS_ERR) r = rjs_script_evaluation(rt, sc, v);
        break;
    case 8: r = rjs_call(rt, em_get(rt, "(function(a,b){return arguments.length})", f), rjs_v_undefined(rt), a, 2, v); break;
    case 9: r = rjs_call(rt, em_get(rt, "(function f(n){if(n!==3)f((n|0)+1);else throw new RangeError('x')})", f), rjs_v_undefined(rt), a, 0, v); break;
    case 10: r = rjs_construct(rt, em_get(rt, "(class extends Object{constructor(){}})", f), a, 1, NULL, v); break;
    case 11: r = rjs_construct(rt, em_get(rt, "(class A{constructor(){this.x=1}})", f), NULL, 0, NULL, v); break;
    case 12: em_get(rt, "({get x(){throw new EvalError('x')}})", f); rjs_string_from_chars(rt, s, "x", -1); rjs_property_name_init(rt, &pn, s); r = rjs_get(rt, f, &pn, v); rjs_property_name_deinit(rt, &pn); break;
    case 13: r = rjs_to_number(rt, em_get(rt, "Symbol()", f), &n); break;
    case 14: r = rjs_to_primitive(rt, em_get(rt, "({toString(){throw new URIError('x')},valueOf(){return {}}})", f), v, RJS_VALUE_UNDEFINED); break;
    case 15: rjs_string_from_chars(rt, s, "[1,{\"a\":[2,}]", -1); r = rjs_json_from_string(rt, v, s); break;
    case 16: rjs_string_from_chars(rt, s, "[1,{\"a\":[2,3]}]", -1); r = rjs_json_from_string(rt, v, s); break;
    case 17: em_get(rt, "[1,2,3]", f); rjs_iterator_init(rt, &it); r = rjs_get_iterator(rt, f, RJS_ITERATOR_SYNC, NULL, &it); if (r == RJS_OK) { r = rjs_iterator_step(rt, &it, v); if (r != RJS_ERR) r = rjs_iterator_close(rt, &it); } rjs_iterator_deinit(rt, &it); break;
    case 18: em_get(rt, "({})", f); rjs_iterator_init(rt, &it); r = rjs_get_iterator(rt, f, RJS_ITERATOR_SYNC, NULL, &it); rjs_iterator_deinit(rt, &it); break;
    case 19: rjs_throw_reference_error(rt, "x"); r = RJS_ERR; break;
    case 20: r = rjs_call(rt, em_get(rt, "(function(){var g=(function*(){try{yield 1}finally{throw new SyntaxError('x')}})();g.next();g.return()})", f), rjs_v_undefined(rt), NULL, 0, v); break;
    case 21: r = rjs_call(rt, em_get(rt, "(function(){var g=(function*(){yield 1})();g.next();return g})", f), rjs_v_undefined(rt), NULL, 0, v); break;
    case 22: add_job(rt, em_get(rt, "(function(){__log('j1')})", f), nj_run); break;
    case 23: add_job(rt, em_get(rt, "(function(){__log('j2');throw 1})", f), nj_run); break;
    case 24: rjs_solve_jobs(rt); break;
    case 25: rjs_gc_run(rt); break;
    }
    rjs_value_stack_restore(rt, top);
    return r;
}
static void em_ops (RJS_Runtime *rt, const char *p, size_t n)
{
    size_t i, top = rjs_value_stack_save(rt), t2; RJS_Value *e = rjs_value_stack_push(rt), *m = rjs_value_stack_push(rt);
    void *ctxt = ((RJS_RuntimeBase*)rt)->ctxt_stack;
    t2 = rjs_value_stack_save(rt);
    for (i = 0; i < n; i ++) {
        RJS_Result r = em_one(rt, p[i] - 'a'); char t[3] = { p[i], ':', 0 };
        if (rjs_value_stack_save(rt) != t2) lputs("!stack;");
        if (((RJS_RuntimeBase*)rt)->ctxt_stack != ctxt) lputs("!ctxt;");
        lputs(t);
        if (r == RJS_ERR) { if (rjs_catch(rt, e)) { log_value_name(rt, e); lputs(";"); } else lputs("!noerr;"); }
        else { if (rjs_catch(rt, e)) lputs("!stale;"); else lputs("ok;"); }
    }
    rjs_value_stack_restore(rt, top);
}
static RJS_NF(h_eops)
{
    RJS_Value *sv = rjs_argument_get(rt, args, argc, 0); const char *c = rjs_string_to_enc_chars(rt, sv, NULL, NULL); char b[64];
    snprintf(b, sizeof(b), "%s", c); em_ops(rt, b, strlen(b));
    rjs_value_set_undefined(rt, rv); return RJS_OK;
}
static void add_fn (RJS_Runtime *rt, RJS_Realm *realm, const char *name, RJS_NativeFunc nf, int len)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *n = rjs_value_stack_push(rt), *f = rjs_value_stack_push(rt);
    RJS_PropertyName pn;
    rjs_string_from_chars(rt, n, name, -1);
    rjs_create_builtin_function(rt, NULL, nf, len, n, realm, NULL, NULL, f);
    rjs_property_name_init(rt, &pn, n);
    rjs_create_data_property(rt, rjs_global_object(realm), &pn, f);
    rjs_property_name_deinit(rt, &pn);
    rjs_value_stack_restore(rt, top);
}
static void add_natives (RJS_Runtime *rt, RJS_Realm *realm)
{
    add_fn(rt, realm, "__log", h_log, 1);
    add_fn(rt, realm, "__gc", h_gc, 0);
    add_fn(rt, realm, "__jobs", h_jobs, 0);
    add_fn(rt, realm, "__detach", h_detach, 1);
    add_fn(rt, realm, "__realm", h_realm, 0);
    add_fn(rt, realm, "__tz", h_tz, 1);
    add_fn(rt, realm, "__njob", h_njob, 1);
    add_fn(rt, realm, "__ujob", h_ujob, 1);
    add_fn(rt, realm, "__ncall", h_ncall, 2);
    add_fn(rt, realm, "__eops", h_eops, 1);
}

static RJS_Result m_lookup (RJS_Runtime *rt, const char *base, const char *name, char *path)
{
    int i; size_t n;
    if (!strncmp(name, "./", 2)) name += 2;
    n = strlen(name);
    for (i = 0; i < cur_nparts; i ++)
        if (cur_parts[i].nlen == n && !memcmp(cur_parts[i].name, name, n)) { strcpy(path, name); return RJS_OK; }
    return RJS_ERR;
}
static RJS_Result load_part (RJS_Runtime *rt, const char *id, RJS_Value *mod)
{
    int i; size_t n = strlen(id), top = rjs_value_stack_save(rt); RJS_Result r = RJS_ERR;
    RJS_Value *s = rjs_value_stack_push(rt);
    for (i = 0; i < cur_nparts; i ++)
        if (cur_parts[i].nlen == n && !memcmp(cur_parts[i].name, id, n)) {
            RJS_Input in;
            int json = n > 5 && !strcmp(id + n - 5, ".json");
            rjs_string_from_enc_chars(rt, s, cur_parts[i].data, cur_parts[i].dlen, NULL);
            if (rjs_string_input_init(rt, &in, s) == RJS_ERR) break;
            r = rjs_load_module(rt, json ? RJS_MODULE_TYPE_JSON : RJS_MODULE_TYPE_SCRIPT, &in, id, NULL, mod);
            rjs_input_deinit(rt, &in);
            break;
        }
    rjs_value_stack_restore(rt, top);
    return r;
}
static RJS_Result m_load (RJS_Runtime *rt, const char *id, RJS_PromiseCapability *pc)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *mod = rjs_value_stack_push(rt), *err = rjs_value_stack_push(rt);
    RJS_Result r = load_part(rt, id, mod);
    if (r == RJS_ERR) { rjs_catch(rt, err); r = rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL); }
    else r = rjs_call(rt, pc->resolve, rjs_v_undefined(rt), mod, 1, NULL);
    rjs_value_stack_restore(rt, top);
    return r;
}

static void log_value_name (RJS_Runtime *rt, RJS_Value *err)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *n = rjs_value_stack_push(rt), *s = rjs_value_stack_push(rt);
    if (rjs_value_is_object(rt, err)) {
        RJS_PropertyName pn; RJS_Result r;
        rjs_string_from_chars(rt, n, "name", -1);
        rjs_property_name_init(rt, &pn, n);
        r = rjs_get(rt, err, &pn, s);
        rjs_property_name_deinit(rt, &pn);
        if (r == RJS_OK && rjs_value_is_string(rt, s)) lput_js(rt, s); else lputs("object");
    } else if (rjs_value_is_symbol(rt, err)) lputs("symbol");
    else if (rjs_to_string(rt, err, s) != RJS_ERR) lput_js(rt, s);
    rjs_value_stack_restore(rt, top);
}
static void log_pending (RJS_Runtime *rt, const char *tag)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *e = rjs_value_stack_push(rt);
    if (rjs_catch(rt, e)) { lputs(tag); log_value_name(rt, e); lputs(";"); }
    rjs_value_stack_restore(rt, top);
}

static void new_rt (void)
{
    rt = rjs_runtime_new();
    rjs_set_module_lookup_func(rt, m_lookup);
    rjs_set_module_load_func(rt, m_load);
    add_natives(rt, rjs_realm_current(rt));
    if (prelude_len) {
        size_t top = rjs_value_stack_save(rt);
        RJS_Value *s = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt);
        rjs_string_from_enc_chars(rt, s, prelude, prelude_len, NULL);
        if (rjs_script_from_string(rt, sc, s, NULL, RJS_FALSE) == RJS_ERR
                || rjs_script_evaluation(rt, sc, NULL) == RJS_ERR) {
            lputs("!prelude;"); log_pending(rt, "");
        }
        rjs_solve_jobs(rt);
        rjs_value_stack_restore(rt, top);
    }
}

static RJS_NF(on_ok) { mod_async = 1; rjs_value_set_undefined(rt, rv); return RJS_OK; }
static const char *rej_tag = "!reject ";
static RJS_NF(on_err)
{
    lputs(rej_tag); log_value_name(rt, rjs_argument_get(rt, args, argc, 0)); lputs(";");
    mod_async = 2; rjs_value_set_undefined(rt, rv); return RJS_OK;
}
static int wait_promise (RJS_Value *p)
{
    mod_async = 0;
    if (rjs_promise_then_native(rt, p, on_ok, on_err, NULL) == RJS_ERR) { log_pending(rt, "!then "); return 2; }
    rjs_solve_jobs(rt);
    if (!mod_async) lputs("!pending;");
    return mod_async;
}

static void run_case (int kind)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *s = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt), *v = rjs_value_stack_push(rt), *p = rjs_value_stack_push(rt);

    switch (kind) {
    case 's': case 'S': {
        int k;
        for (k = 0; k < cur_nparts; k ++) {
            size_t t2;
            if (k) lputs("|");
            t2 = rjs_value_stack_save(rt);
            rjs_string_from_enc_chars(rt, s, cur_parts[k].data, cur_parts[k].dlen, NULL);
            if (rjs_script_from_string(rt, sc, s, NULL, RJS_FALSE) == RJS_ERR) { rjs_catch(rt, v); lputs("!SyntaxError;"); continue; }
            if (rjs_script_evaluation(rt, sc, v) == RJS_ERR) log_pending(rt, "!throw ");
            rjs_solve_jobs(rt);
            log_pending(rt, "!late ");
            if (rjs_value_stack_save(rt) != t2) lputs("!stack;");
        }
        break;
    }
    case 'e': em_ops(rt, cur_parts[0].data, cur_parts[0].dlen); lputs("|"); rjs_solve_jobs(rt); log_pending(rt, "!late "); break;
    case 'p':
        rjs_string_from_enc_chars(rt, s, cur_parts[0].data, cur_parts[0].dlen, NULL);
        if (rjs_script_from_string(rt, sc, s, NULL, RJS_FALSE) == RJS_ERR) { rjs_catch(rt, v); lputs("E"); } else lputs("ok");
        break;
    case 'P':
        { /* loaded modules are cached by name: every text gets its own */
            static long pn; char nm[32]; char *old = cur_parts[0].name; size_t on = cur_parts[0].nlen;
            snprintf(nm, sizeof(nm), "p%ld", pn ++); cur_parts[0].name = nm; cur_parts[0].nlen = strlen(nm);
            if (load_part(rt, nm, sc) == RJS_ERR) { rjs_catch(rt, v); lputs("E"); } else lputs("ok");
            cur_parts[0].name = old; cur_parts[0].nlen = on;
        }
        break;
    case 'm':
        if (load_part(rt, cur_parts[0].name, sc) == RJS_ERR) { log_pending(rt, "!parse "); break; }
        if (rjs_module_load_requested(rt, sc, p) == RJS_ERR) { log_pending(rt, "!link "); break; }
        rej_tag = "!link ";
        { int w = wait_promise(p); rej_tag = "!reject "; if (w != 1) break; }
        if (rjs_module_link(rt, sc) == RJS_ERR) { log_pending(rt, "!link "); break; }
        if (rjs_module_evaluate(rt, sc, p) == RJS_ERR) { log_pending(rt, "!eval "); break; }
        wait_promise(p);
        break;
    }
    rjs_value_stack_restore(rt, top);
}

/* One case under VRAT_GC; the log gets "!gc ..." / "!leak ..." appended when something differs. */
static long tot_gc, tot_alloc, tot_sched;
static void run_gc_case (int kind)
{
    char *base; size_t bl; long n, k, b0, y0;
    if (rt) { rjs_runtime_free(rt); rt = NULL; }
    ll = 0; gc_armed = 0;
    if (gc_mode == GC_LEAK) { /* what the process keeps for good (number conversion tables) is there after a first run */
        new_rt(); run_case(kind); rjs_runtime_free(rt); rt = NULL; ll = 0;
    }
    b0 = live_blocks; y0 = live_bytes;
    new_rt(); gc_n = 0; run_case(kind); n = gc_n; tot_alloc += n;
    rjs_runtime_free(rt); rt = NULL;
    if (gc_mode == GC_LEAK) {
        if (live_blocks - b0 > 0) {
            char t[64]; long x = live_blocks - b0, y = live_bytes - y0;
            snprintf(t, sizeof(t), "!leak %ld blocks %ld bytes;", x, y); lputs(t);
        }
        return;
    }
    base = __real_malloc(ll + 1); memcpy(base, lb, ll); bl = ll;
    for (k = 0; k < (gc_mode == GC_ALL ? 1 : n > 4000 ? 4000 : n); k ++) {
        int bad;
        ll = 0; gc_armed = 0; new_rt(); gc_n = 0; gc_runs = 0; gc_at = k;
        gc_armed = gc_mode == GC_ALL ? 1 : 2; run_case(kind); gc_armed = 0; tot_gc += gc_runs; tot_sched ++;
        rjs_runtime_free(rt); rt = NULL;
        bad = ll != bl || memcmp(lb, base, bl);
        if (bad) { char t[40]; snprintf(t, sizeof(t), "!gc at %ld of %ld, without: ", gc_mode == GC_ALL ? -1 : k, n); lputs(t); lput(base, bl); __real_free(base); return; }
    }
    ll = 0; lput(base, bl); __real_free(base);
}

static char *rd_line (char **pp, char *end)
{
    char *b = *pp, *e = memchr(b, '\n', end - b);
    if (!e) return NULL;
    *e = 0; *pp = e + 1; return b;
}

int main (int argc, char **argv)
{
    int fd, ofd, start, reset, id = 0, last = 0; struct stat st; char *buf, *p, *end, *l;
    int tmo = getenv("VRAT_TIMEOUT_MS") ? atoi(getenv("VRAT_TIMEOUT_MS")) : 2000;
    int cnt = argc > 5 ? atoi(argv[5]) : -1;
    { const char *g = getenv("VRAT_GC"); if (g) { gc_mode = !strcmp(g, "all") ? GC_ALL : !strcmp(g, "each") ? GC_EACH : GC_LEAK; poison = gc_mode != GC_LEAK; } }
    if (getenv("VRAT_GC_CAP")) gc_cap = atol(getenv("VRAT_GC_CAP"));
    fd = open(argv[1], O_RDONLY); fstat(fd, &st);
    buf = malloc(st.st_size + 1);
    { size_t o = 0; ssize_t n; while (o < (size_t)st.st_size && (n = read(fd, buf + o, st.st_size - o)) > 0) o += n; }
    p = buf; end = buf + st.st_size;
    ofd = open(argv[2], O_WRONLY|O_CREAT|O_APPEND, 0644);
    start = atoi(argv[3]); reset = atoi(argv[4]);
    lc = 1 << 16; lb = malloc(lc);
    if (!strncmp(p, "prelude ", 8)) { l = rd_line(&p, end); prelude_len = atol(l + 8); prelude = p; p += prelude_len + 1; }
    while ((l = rd_line(&p, end))) {
        int kind = l[0], n = atoi(l + 2), i;
        Part *parts = calloc(n, sizeof(Part));
        for (i = 0; i < n; i ++) {
            char *h = rd_line(&p, end), *q;
            parts[i].nlen = strtoul(h, &q, 10); parts[i].dlen = strtoul(q, NULL, 10);
            parts[i].name = malloc(parts[i].nlen + 1); memcpy(parts[i].name, p, parts[i].nlen); parts[i].name[parts[i].nlen] = 0;
            p += parts[i].nlen; parts[i].data = p; p += parts[i].dlen + 1;
        }
        if (id >= start && cnt != 0) {
            char h[64]; struct itimerval it = {{0, 0}, {tmo / 1000, (tmo % 1000) * 1000}};
            ll = 0;
            setitimer(ITIMER_REAL, &it, NULL);
            cur_parts = parts; cur_nparts = n;
            if (gc_mode) run_gc_case(kind);
            else {
            if (!rt || kind == 'S' || last == 'S' || kind == 'm' || last == 'm' || (reset && id % reset == 0)) { if (rt) rjs_runtime_free(rt); cur_parts = parts; cur_nparts = n; new_rt(); }
            cur_parts = parts; cur_nparts = n;
            run_case(kind);
            last = kind;
            }
            it.it_value.tv_sec = it.it_value.tv_usec = 0;
            setitimer(ITIMER_REAL, &it, NULL);
            { size_t hl = snprintf(h, sizeof(h), "%d %zu\n", id, ll); char *o = malloc(hl + ll + 1);
              memcpy(o, h, hl); memcpy(o + hl, lb, ll); o[hl + ll] = '\n';
              if (write(ofd, o, hl + ll + 1) < 0) return 3;
              free(o); }
            if (cnt > 0) cnt --;
        }
        for (i = 0; i < n; i ++) free(parts[i].name);
        free(parts);
        id ++;
    }
    if (rt) rjs_runtime_free(rt);
    if (gc_mode && getenv("VRAT_STATS")) {
        char t[128]; int f = open(getenv("VRAT_STATS"), O_WRONLY|O_CREAT|O_APPEND, 0644);
        int m = snprintf(t, sizeof(t), "%ld %ld %ld\n", tot_alloc, tot_sched, tot_gc); if (f >= 0 && write(f, t, m) > 0) close(f);
    }
    return 0;
}
