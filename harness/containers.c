/* Explicit-state exploration of the native containers: every reachable state of the real data structure, up to
 * the bounds given, is visited once (breadth first, states stored in full) and every operation is applied to it;
 * the result is compared with the abstract data type. containers COMPONENT N -> "ok STATES TRANSITIONS" or "FAIL ...". */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include "ratjs_internal.h"

static char trace[1 << 16]; static size_t tl;
static long n_states, n_trans;
static void t_add (const char *fmt, ...) { va_list ap; va_start(ap, fmt); if (tl < sizeof(trace) - 100) tl += vsnprintf(trace + tl, 90, fmt, ap); va_end(ap); }
static void fail (const char *fmt, ...) { va_list ap; char b[400]; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); printf("FAIL %s: %s\n", b, trace); fflush(stdout); _exit(1); }
#define CHECK(c, ...) do { n_trans += 0; if (!(c)) fail(__VA_ARGS__); } while (0)

/* ---- a set of states ------------------------------------------------------------------------------------------- */
static unsigned char *st; static size_t st_sz, st_n, st_cap; static size_t *tab; static size_t tab_n; static int *parent, *via;
static size_t hash_of (const unsigned char *p) { size_t h = 1469598103934665603ULL; for (size_t i = 0; i < st_sz; i ++) h = (h ^ p[i]) * 1099511628211ULL; return h ^ (h >> 29); }
static void set_init (size_t sz) { free(st); free(tab); free(parent); free(via); st_sz = sz; st_n = 0; st_cap = 1024; st = malloc(st_cap * sz); parent = malloc(st_cap * sizeof(int)); via = malloc(st_cap * sizeof(int)); tab_n = 4096; tab = calloc(tab_n, sizeof(size_t)); }
static int set_add (const unsigned char *p, int from, int op)
{
    size_t h = hash_of(p) & (tab_n - 1);
    while (tab[h]) { if (!memcmp(st + (tab[h] - 1) * st_sz, p, st_sz)) return 0; h = (h + 1) & (tab_n - 1); }
    if (st_n == st_cap) { st_cap *= 2; st = realloc(st, st_cap * st_sz); parent = realloc(parent, st_cap * sizeof(int)); via = realloc(via, st_cap * sizeof(int)); }
    memcpy(st + st_n * st_sz, p, st_sz); parent[st_n] = from; via[st_n] = op; tab[h] = ++ st_n;
    if (st_n * 2 > tab_n) {
        free(tab); tab_n *= 2; tab = calloc(tab_n, sizeof(size_t));
        for (size_t i = 0; i < st_n; i ++) { size_t k = hash_of(st + i * st_sz) & (tab_n - 1); while (tab[k]) k = (k + 1) & (tab_n - 1); tab[k] = i + 1; }
    }
    return 1;
}
static void path_of (int i, int op) { static int p[100000]; int n = 0; tl = 0; p[n ++] = op; for (; i > 0; i = parent[i]) p[n ++] = via[i]; while (n --) { if (p[n] >= 1000) t_add("op%d(%d) ", p[n] / 1000, p[n] % 1000); else t_add("op0(%d) ", p[n]); } }

/* ---- red-black tree: insert and remove of N keys ----------------------------------------------------------------- */
#define RN 16
typedef struct { RJS_Rbt rbt; int key; } Node;
static Node nodes[RN]; static RJS_Rbt *root; static int in_tree[RN];
static void rbt_save (unsigned char *p, int N)
{
    memset(p, 0, st_sz); p[0] = root ? ((Node*)root)->key + 1 : 0;
    for (int k = 0; k < N; k ++) if (in_tree[k]) {
        RJS_Rbt *r = &nodes[k].rbt, *pr = rjs_rbt_get_parent(r); unsigned char *q = p + 1 + k * 5;
        q[0] = 1; q[1] = r->left ? ((Node*)r->left)->key + 1 : 0; q[2] = r->right ? ((Node*)r->right)->key + 1 : 0; q[3] = pr ? ((Node*)pr)->key + 1 : 0; q[4] = r->parent_color & 3;
    }
}
static void rbt_load (const unsigned char *p, int N)
{
    memset(nodes, 0xee, sizeof nodes); root = p[0] ? &nodes[p[0] - 1].rbt : NULL;
    for (int k = 0; k < N; k ++) { const unsigned char *q = p + 1 + k * 5; nodes[k].key = k; in_tree[k] = q[0]; if (q[0]) { RJS_Rbt *r = &nodes[k].rbt; r->left = q[1] ? &nodes[q[1] - 1].rbt : NULL; r->right = q[2] ? &nodes[q[2] - 1].rbt : NULL; r->parent_color = (size_t)(q[3] ? &nodes[q[3] - 1].rbt : NULL) | q[4]; } }
}
static int bad;
static int rbt_check (RJS_Rbt *r, RJS_Rbt *par, int lo, int hi, int red, int *cnt)
{ /* black height with `red' as the red colour; -1: not a red-black tree */
    if (!r) return 0;
    int k = ((Node*)r)->key, c = r->parent_color & 1;
    if ((Node*)r < nodes || (Node*)r >= nodes + RN || !in_tree[k] || k <= lo || k >= hi || rjs_rbt_get_parent(r) != par || ++ *cnt > RN) { bad = 1; return -1; }
    int a = rbt_check(r->left, r, lo, k, red, cnt), b = rbt_check(r->right, r, k, hi, red, cnt);
    if (bad || a < 0 || a != b) return -1;
    if (c == red) { if (!par || (par->parent_color & 1) == (unsigned)red) return -1; return a; }
    return a + 1;
}
static void rbt_all (int N)
{
    unsigned char cur[1 + RN * 5]; set_init(1 + N * 5); memset(in_tree, 0, sizeof in_tree); rjs_rbt_init(&root); rbt_save(cur, N); set_add(cur, -1, 0);
    for (size_t i = 0; i < st_n; i ++) for (int k = 0; k < N; k ++) {
        unsigned char p[1 + RN * 5]; memcpy(p, st + i * st_sz, st_sz); rbt_load(p, N); path_of(i, k); n_trans ++;
        if (in_tree[k]) { rjs_rbt_remove(&root, &nodes[k].rbt); in_tree[k] = 0; }
        else { RJS_Rbt **pos = &root, *par = NULL; while (*pos) { par = *pos; pos = ((Node*)par)->key > k ? &par->left : &par->right; } rjs_rbt_link(&nodes[k].rbt, par, pos); rjs_rbt_insert(&root, &nodes[k].rbt); in_tree[k] = 1; }
        int want[RN], n = 0, c0 = 0, c1 = 0; for (int q = 0; q < N; q ++) if (in_tree[q]) want[n ++] = q;
        bad = 0; int h0 = rbt_check(root, NULL, -1, N, 0, &c0); CHECK(!bad, "rbt: broken links or order"); int h1 = rbt_check(root, NULL, -1, N, 1, &c1);
        CHECK(!bad, "rbt: broken links or order"); CHECK(c0 == n, "rbt: %d of %d nodes reachable", c0, n); CHECK(h0 >= 0 || h1 >= 0, "rbt: not balanced");
        int j = 0; for (RJS_Rbt *r = rjs_rbt_first(&root); r; r = rjs_rbt_next(r)) { CHECK(j < n && ((Node*)r)->key == want[j], "rbt: forward order"); j ++; } CHECK(j == n, "rbt: forward order stops early");
        for (RJS_Rbt *r = rjs_rbt_last(&root); r; r = rjs_rbt_prev(r)) { j --; CHECK(j >= 0 && ((Node*)r)->key == want[j], "rbt: backward order"); } CHECK(j == 0, "rbt: backward order stops early");
        rbt_save(cur, N); set_add(cur, i, in_tree[k] ? k : 1000 + k);
    }
    n_states += st_n;
}
/* ---- hash table: K keys, 3 hash functions, insert at the place found / at a fresh place, remove ------------------- */
static int hmode; static void *h_realloc (void *d, void *o, size_t os, size_t ns) { if (!ns) { free(o); return NULL; } return realloc(o, ns); }
static size_t h_key (void *d, void *k) { size_t v = (size_t)k; return hmode == 0 ? v : hmode == 1 ? 7 : hmode == 2 ? v & 1 : hmode == 3 ? v * 0x9e3779b97f4a7c15ULL : (size_t)-1 - v; }
static RJS_Bool h_equal (void *d, void *a, void *b) { return a == b; }
static const RJS_HashOps hops = { h_realloc, h_key, h_equal };
#define HK 700
static RJS_HashEntry ents[HK]; static int in_h[HK];
static void h_verify (RJS_Hash *h, int K)
{
    int n = 0; size_t i; RJS_HashEntry *e, *t; static int seen[HK];
    memset(seen, 0, sizeof(int) * K); for (int k = 0; k < K; k ++) n += in_h[k];
    CHECK((int)rjs_hash_get_size(h) == n, "hash: size %d, not %d", (int)rjs_hash_get_size(h), n);
    for (int k = 0; k < K; k ++) { RJS_HashEntry *re = (void*)1, **pe = (void*)1; RJS_Result r = rjs_hash_lookup(h, (void*)(size_t)(k + 1), &re, &pe, &hops, NULL); CHECK(!!r == in_h[k], "hash: lookup of key %d says %d", k, r); CHECK(in_h[k] ? re == &ents[k] && *pe == re : re == NULL, "hash: lookup of key %d finds another entry", k); CHECK(!!rjs_hash_lookup(h, (void*)(size_t)(k + 1), NULL, NULL, &hops, NULL) == in_h[k], "hash: lookup without results"); }
    int c = 0; rjs_hash_foreach(h, i, e) { int k = e - ents; CHECK(k >= 0 && k < K && in_h[k] && !seen[k] && e->key == (void*)(size_t)(k + 1), "hash: iteration"); seen[k] = 1; c ++; } CHECK(c == n, "hash: iteration visits %d of %d", c, n);
    c = 0; rjs_hash_foreach_safe(h, i, e, t) c ++; CHECK(c == n, "hash: safe iteration visits %d of %d", c, n);
}
static void h_save (RJS_Hash *h, unsigned char *p, int K)
{ memset(p, 0, st_sz); int o = 0; p[o ++] = h->list_num; size_t i; for (i = 0; i < h->list_num; i ++) { RJS_HashEntry *e = h->list_num == 1 ? h->e.list : h->e.lists[i]; for (; e; e = e->next) { if (o < (int)st_sz - 1) p[o ++] = (e - ents) + 1; } if (i + 1 < h->list_num && o < (int)st_sz - 1) p[o ++] = 255; } }
static void h_load (RJS_Hash *h, const unsigned char *p, int K)
{
    memset(ents, 0xee, sizeof(RJS_HashEntry) * K); memset(in_h, 0, sizeof(int) * K); rjs_hash_init(h); h->list_num = p[0]; size_t i = 0; RJS_HashEntry **q;
    if (h->list_num > 1) h->e.lists = calloc(h->list_num, sizeof(RJS_HashEntry*));
    q = h->list_num == 1 ? &h->e.list : &h->e.lists[0];
    for (int o = 1; o < (int)st_sz; o ++) { if (p[o] == 255) { *q = NULL; i ++; q = &h->e.lists[i]; } else if (p[o]) { RJS_HashEntry *e = &ents[p[o] - 1]; e->key = (void*)(size_t)p[o]; *q = e; q = &e->next; e->next = NULL; in_h[p[o] - 1] = 1; h->entry_num ++; } else break; }
}
static void hash_all (int K)
{
    for (hmode = 0; hmode < 5; hmode ++) {
        unsigned char cur[64]; RJS_Hash h; set_init(56); rjs_hash_init(&h); h_save(&h, cur, K); set_add(cur, -1, 0);
        for (size_t i = 0; i < st_n; i ++) for (int k = 0; k < K; k ++) for (int how = 0; how < 2; how ++) {
            unsigned char p[64]; memcpy(p, st + i * st_sz, st_sz); h_load(&h, p, K); if (in_h[k] && how) { rjs_hash_deinit(&h, &hops, NULL); continue; }
            path_of(i, how * 1000 + k); n_trans ++; RJS_HashEntry *e, **pe; void *key = (void*)(size_t)(k + 1);
            RJS_Result r = rjs_hash_lookup(&h, key, &e, &pe, &hops, NULL); CHECK(!!r == in_h[k], "hash: lookup before the operation");
            if (in_h[k]) { rjs_hash_remove(&h, pe, NULL); in_h[k] = 0; } else { rjs_hash_insert(&h, key, &ents[k], how ? NULL : pe, &hops, NULL); in_h[k] = 1; }
            h_verify(&h, K); CHECK(h.list_num < 40, "hash: grows without bound"); h_save(&h, cur, K); set_add(cur, i, how * 1000 + k); rjs_hash_deinit(&h, &hops, NULL);
        }
        n_states += st_n;
    }
    /* growth: fill up to n keys in three orders, remove a part, fill again */
    for (hmode = 0; hmode < 5; hmode ++) for (int n = 1; n < HK; n += n < 130 ? 1 : 95) for (int ord = 0; ord < 3; ord ++) for (int part = 0; part < 4; part ++) {
        RJS_Hash h; rjs_hash_init(&h); memset(in_h, 0, sizeof in_h); tl = 0; t_add("growth mode %d, %d keys, order %d, part %d", hmode, n, ord, part);
        for (int round = 0; round < 2; round ++) {
            for (int j = 0; j < n; j ++) { int k = ord == 0 ? j : ord == 1 ? n - 1 - j : (int)((j * 37L) % n); if (in_h[k]) continue; RJS_HashEntry *e, **pe; void *key = (void*)(size_t)(k + 1); if (rjs_hash_lookup(&h, key, &e, &pe, &hops, NULL)) continue; rjs_hash_insert(&h, key, &ents[k], pe, &hops, NULL); in_h[k] = 1; n_trans ++; }
            h_verify(&h, n);
            if (!round) for (int k = 0; k < n; k ++) if (in_h[k] && (part == 1 ? k % 2 : part == 2 ? k < n / 2 : part == 3)) { RJS_HashEntry *e, **pe; CHECK(rjs_hash_lookup(&h, (void*)(size_t)(k + 1), &e, &pe, &hops, NULL), "hash: lost key"); rjs_hash_remove(&h, pe, NULL); in_h[k] = 0; n_trans ++; }
            h_verify(&h, n);
        }
        rjs_hash_deinit(&h, &hops, NULL);
    }
}
/* ---- doubly linked lists: N nodes in two lists --------------------------------------------------------------------- */
static RJS_List lh[2], ln[8]; static signed char lm[2][9]; static int lmn[2];
static void l_save (unsigned char *p, int N) { memset(p, 0, st_sz); for (int l = 0; l < 2; l ++) for (int i = 0; i < lmn[l]; i ++) p[l * 9 + i] = lm[l][i] + 1; }
static void l_load (const unsigned char *p, int N)
{ memset(ln, 0xee, sizeof ln); for (int l = 0; l < 2; l ++) { RJS_List *prev = &lh[l]; lmn[l] = 0; for (int i = 0; i < 9 && p[l * 9 + i]; i ++) { RJS_List *x = &ln[p[l * 9 + i] - 1]; lm[l][lmn[l] ++] = p[l * 9 + i] - 1; prev->next = x; x->prev = prev; prev = x; } prev->next = &lh[l]; lh[l].prev = prev; } }
static void list_all (int N)
{
    unsigned char cur[32]; set_init(18); rjs_list_init(&lh[0]); rjs_list_init(&lh[1]); lmn[0] = lmn[1] = 0; l_save(cur, N); set_add(cur, -1, 0);
    for (size_t i = 0; i < st_n; i ++) for (int op = 0; op < 6; op ++) for (int k = 0; k < N; k ++) {
        unsigned char p[32]; memcpy(p, st + i * st_sz, st_sz); l_load(p, N); int where = -1, at = 0;
        for (int l = 0; l < 2; l ++) for (int j = 0; j < lmn[l]; j ++) if (lm[l][j] == k) { where = l; at = j; }
        if (op >= 4 && k) continue; if (op < 4 && where >= 0 && op != 0) continue;
        path_of(i, op * 1000 + k); n_trans ++;
        if (op < 4 && where >= 0) { rjs_list_remove(&ln[k]); memmove(&lm[where][at], &lm[where][at + 1], lmn[where] - at - 1); lmn[where] --; }
        else if (op < 4) { int l = op & 1; if (op < 2) { rjs_list_append(&lh[l], &ln[k]); lm[l][lmn[l] ++] = k; } else { rjs_list_prepend(&lh[l], &ln[k]); memmove(&lm[l][1], &lm[l][0], lmn[l]); lm[l][0] = k; lmn[l] ++; } }
        else { int a = op - 4, b = 1 - a; rjs_list_join(&lh[a], &lh[b]); memcpy(&lm[a][lmn[a]], lm[b], lmn[b]); lmn[a] += lmn[b]; lmn[b] = 0; rjs_list_init(&lh[b]); }
        for (int l = 0; l < 2; l ++) {
            RJS_List *x, *t; int j = 0; CHECK(rjs_list_is_empty(&lh[l]) == (lmn[l] == 0), "list: is_empty"); CHECK(!!rjs_list_has_1_node(&lh[l]) == (lmn[l] == 1), "list: has_1_node");
            rjs_list_foreach(&lh[l], x) { CHECK(j < lmn[l] && x == &ln[lm[l][j]], "list: forward"); j ++; } CHECK(j == lmn[l], "list: forward stops early");
            rjs_list_foreach_r(&lh[l], x) { j --; CHECK(j >= 0 && x == &ln[lm[l][j]], "list: backward"); } CHECK(j == 0, "list: backward stops early");
            rjs_list_foreach_safe(&lh[l], x, t) { CHECK(j < lmn[l] && x == &ln[lm[l][j]], "list: safe"); j ++; } CHECK(j == lmn[l], "list: safe stops early");
            rjs_list_foreach_safe_r(&lh[l], x, t) { j --; CHECK(j >= 0 && x == &ln[lm[l][j]], "list: safe backward"); } CHECK(j == 0, "list: safe backward stops early");
        }
        l_save(cur, N); set_add(cur, i, op * 1000 + k);
    }
    n_states += st_n;
}
/* ---- vectors and buffers: all operation sequences up to a depth ----------------------------------------------------- */
static RJS_Runtime *rt;
typedef RJS_VECTOR_DECL(int) IntVec;
static void int_init (RJS_Runtime *r, int *p, size_t n) { while (n --) *p ++ = -7; }
static void vec_run (const int *ops, int n)
{
    IntVec v; int m[400], known[400], len = 0, val = 0; size_t i; int *pi; tl = 0; rjs_vector_init(&v); memset(known, 0, sizeof known);
    for (int k = 0; k < n; k ++) {
        int op = ops[k]; t_add("%d ", op); n_trans ++;
        if (op == 0) { val ++; rjs_vector_append(&v, val, rt); m[len] = val; known[len ++] = 1; }
        else if (op <= 5) { int s = ((int[]){ 0, 0, 1, 7, 9, 40 })[op]; rjs_vector_resize(&v, s, rt); for (int j = len; j < s; j ++) known[j] = 0; len = s; }
        else if (op <= 7) { int s = op == 6 ? 5 : 17; rjs_vector_resize_init(&v, s, rt, int_init); for (int j = len; j < s; j ++) { known[j] = 1; m[j] = -7; } len = s; }
        else if (op <= 10) { int at = op == 8 ? 0 : op == 9 ? 8 : len + 3; val ++; rjs_vector_set_item(&v, at, val, rt); for (int j = len; j < at; j ++) known[j] = 0; if (at >= len) len = at + 1; m[at] = val; known[at] = 1; }
        else { int s = op == 11 ? 3 : 30; rjs_vector_set_capacity(&v, s, rt); CHECK(v.item_cap >= (size_t)s, "vector: capacity"); }
        CHECK(rjs_vector_get_size(&v) == (size_t)len, "vector: size %d, not %d", (int)rjs_vector_get_size(&v), len); CHECK(v.item_cap >= v.item_num, "vector: capacity below size");
        for (int j = 0; j < len; j ++) if (known[j]) CHECK(rjs_vector_get_item(&v, j) == m[j], "vector: item %d", j);
        int c = 0; rjs_vector_foreach(&v, i, pi) { CHECK(!known[c] || *pi == m[c], "vector: foreach"); c ++; } CHECK(c == len, "vector: foreach length");
    }
    rjs_vector_deinit(&v, rt);
}
static void cbuf_run (const int *ops, int n)
{
    RJS_CharBuffer cb; char m[2000]; int len = 0; tl = 0; rjs_char_buffer_init(rt, &cb); static const char *txt = "abcdefghijklmnopqrstuvwxyz0123456789";
    for (int k = 0; k < n; k ++) {
        int op = ops[k]; t_add("%d ", op); n_trans ++;
        if (op == 0) { rjs_char_buffer_append_char(rt, &cb, 'A' + k); m[len ++] = 'A' + k; }
        else if (op <= 5) { int s = ((int[]){ 0, 0, 1, 7, 8, 33 })[op]; rjs_char_buffer_append_chars(rt, &cb, txt, s); memcpy(m + len, txt, s); len += s; }
        else if (op == 6) { rjs_char_buffer_append_chars(rt, &cb, "xyz", -1); memcpy(m + len, "xyz", 3); len += 3; }
        else if (op <= 10) { int s = ((int[]){ 0, 1, 7, 30 })[op - 7]; char b[100]; rjs_char_buffer_printf(rt, &cb, "%d%.*s", k, s, txt); int w = sprintf(b, "%d%.*s", k, s, txt); memcpy(m + len, b, w); len += w; }
        else if (op == 11) { rjs_char_buffer_clear(rt, &cb); len = 0; }
        else { const char *s = rjs_char_buffer_to_c_string(rt, &cb); m[len] = 0; CHECK(!memcmp(s, m, len + 1), "char buffer: c string"); }
        CHECK((int)cb.item_num == len && (!len || !memcmp(cb.items, m, len)), "char buffer: contents");
    }
    rjs_char_buffer_deinit(rt, &cb);
}
static void ubuf_run (const int *ops, int n)
{
    RJS_UCharBuffer cb; RJS_UChar m[2000]; int len = 0; tl = 0; size_t top = rjs_value_stack_save(rt); RJS_Value *str = rjs_value_stack_push(rt); rjs_uchar_buffer_init(rt, &cb); static const RJS_UChar txt[] = { 0, 1, 0x41, 0xff, 0x100, 0xd800, 0xdfff, 0xffff, 0xdc00, 0x42 };
    for (int k = 0; k < n; k ++) {
        int op = ops[k]; t_add("%d ", op); n_trans ++;
        if (op <= 4) { int uc = ((int[]){ 0x41, 0xffff, 0x10000, 0x10ffff, 0xd800 })[op]; rjs_uchar_buffer_append_uc(rt, &cb, uc); if (uc > 0xffff) { m[len ++] = 0xd800 + ((uc - 0x10000) >> 10); m[len ++] = 0xdc00 + ((uc - 0x10000) & 0x3ff); } else m[len ++] = uc; }
        else if (op == 5) { rjs_uchar_buffer_append_uchar(rt, &cb, 0xdbff); m[len ++] = 0xdbff; }
        else if (op <= 8) { int s = ((int[]){ 0, 1, 10 })[op - 6]; rjs_uchar_buffer_append_uchars(rt, &cb, txt, s); memcpy(m + len, txt, s * 2); len += s; }
        else if (op == 9) { rjs_uchar_buffer_append_chars(rt, &cb, "12345678", -1); for (int j = 0; j < 8; j ++) m[len ++] = '1' + j; }
        else if (op == 10) { rjs_string_from_uchars(rt, str, txt, 9); rjs_uchar_buffer_append_string(rt, &cb, str); memcpy(m + len, txt, 18); len += 9; }
        else { rjs_uchar_buffer_clear(rt, &cb); len = 0; }
        CHECK((int)cb.item_num == len && (!len || !memcmp(cb.items, m, len * 2)), "uchar buffer: contents");
    }
    rjs_uchar_buffer_deinit(rt, &cb); rjs_value_stack_restore(rt, top);
}
/* value stack: pushes of one and of many, restores, writes through old handles, collections */
static void vs_run (const int *ops, int n)
{
    size_t base = rjs_value_stack_save(rt), saved = base; int sl = 0; static RJS_Value *h[4000]; static int m[4000]; int len = 0; tl = 0;
    for (int k = 0; k < n; k ++) {
        int op = ops[k]; t_add("%d ", op); n_trans ++;
        if (op <= 4) {
            int c = ((int[]){ 1, 1, 3, 19, 0 })[op]; RJS_Value *v = op == 0 ? rjs_value_stack_push(rt) : op == 4 ? rjs_value_stack_push_n(rt, c = 400) : rjs_value_stack_push_n(rt, c);
            for (int j = 0; j < c; j ++) { h[len] = rjs_value_buffer_item(rt, v, j); CHECK(rjs_value_is_undefined(rt, h[len]), "value stack: a new value is not undefined"); if ((j + k) % 3 == 0) { char b[20]; sprintf(b, "s%d", k * 1000 + j); rjs_string_from_chars(rt, h[len], b, -1); m[len] = -1 - (k * 1000 + j); } else if ((j + k) % 3 == 1) { rjs_value_set_number(rt, h[len], k * 1000 + j); m[len] = 1 + k * 1000 + j; } else m[len] = 0; len ++; }
        } else if (op == 5) { saved = rjs_value_stack_save(rt); sl = len; CHECK(saved == base + len, "value stack: depth"); }
        else if (op == 6) { if (sl <= len) { rjs_value_stack_restore(rt, saved); len = sl; } }
        else if (op == 7) { if (len) { rjs_value_stack_restore_pointer(rt, h[len / 2]); len = len / 2; if (sl > len) { sl = len; saved = base + len; } } }
        else if (op == 8) rjs_gc_run(rt);
        else if (len) { int j = len / 2; rjs_value_copy(rt, h[j], h[0]); m[j] = m[0]; }
        CHECK(rjs_value_stack_save(rt) == base + len, "value stack: depth %d, not %d", (int)(rjs_value_stack_save(rt) - base), len);
        for (int j = 0; j < len; j ++) {
            if (m[j] == 0) CHECK(rjs_value_is_undefined(rt, h[j]), "value stack: handle %d is not undefined any more", j);
            else if (m[j] > 0) CHECK(rjs_value_is_number(rt, h[j]) && rjs_value_get_number(rt, h[j]) == m[j] - 1, "value stack: number at handle %d", j);
            else { char b[20]; sprintf(b, "s%d", -1 - m[j]); CHECK(rjs_value_is_string(rt, h[j]) && !strcmp(rjs_string_to_enc_chars(rt, h[j], NULL, NULL), b), "value stack: string at handle %d", j); }
        }
    }
    rjs_value_stack_restore(rt, base);
}
static void vl_run (const int *ops, int n)
{
    size_t top = rjs_value_stack_save(rt); RJS_Value *lv = rjs_value_stack_push(rt), *t = rjs_value_stack_push(rt); RJS_ValueList *vl = rjs_value_list_new(rt, lv); int len = 0; tl = 0;
    for (int k = 0; k < n; k ++) {
        int op = ops[k], c = ((int[]){ 1, 2, 62, 63, 64, 65, 0 })[op]; t_add("%d ", op); n_trans ++;
        if (op == 6) rjs_gc_run(rt);
        for (int j = 0; j < c; j ++, len ++) { char b[20]; sprintf(b, "v%d", len); rjs_string_from_chars(rt, t, b, -1); rjs_value_list_append(rt, vl, t); } rjs_value_set_undefined(rt, t);
        CHECK((int)vl->len == len, "value list: length"); int i = 0; RJS_ValueListSegment *s;
        rjs_list_foreach_c(&vl->seg_list, s, RJS_ValueListSegment, ln) { CHECK(s->num <= RJS_VALUE_LIST_SEGMENT_SIZE && s->num > 0, "value list: segment"); for (size_t j = 0; j < s->num; j ++, i ++) { char b[20]; sprintf(b, "v%d", i); CHECK(rjs_value_is_string(rt, &s->v[j]) && !strcmp(rjs_string_to_enc_chars(rt, &s->v[j], NULL, NULL), b), "value list: item %d", i); } }
        CHECK(i == len, "value list: iteration visits %d of %d", i, len);
    }
    rjs_value_stack_restore(rt, top);
}
static void seqs (void (*run) (const int*, int), int nops, int depth)
{ int ops[16]; memset(ops, 0, sizeof ops); for (;;) { run(ops, depth); n_states ++; int i = depth - 1; while (i >= 0 && ++ ops[i] == nops) ops[i --] = 0; if (i < 0) break; } }
/* ---- sorting: all arrays of up to n items over a few keys (stable), and the failing comparison at every place ------------ */
typedef struct { int key, id; } Item; static int cmp_left, cmp_n; static RJS_CompareResult cmp (const void *a, const void *b, void *arg)
{ cmp_n ++; if (cmp_left == 0) return RJS_ERR; if (cmp_left > 0) cmp_left --; const Item *x = a, *y = b; return x->key < y->key ? RJS_COMPARE_LESS : x->key > y->key ? RJS_COMPARE_GREATER : RJS_COMPARE_EQUAL; }
static void sort_check (const int *key, int n)
{
    Item a[300]; n_trans ++; tl = 0; t_add("keys "); for (int i = 0; i < n && i < 40; i ++) t_add("%d,", key[i]);
    for (int i = 0; i < n; i ++) { a[i].key = key[i]; a[i].id = i; } cmp_left = -1; cmp_n = 0;
    CHECK(rjs_sort(a, n, sizeof(Item), cmp, NULL) == RJS_OK, "sort: result"); for (int i = 1; i < n; i ++) CHECK(a[i - 1].key < a[i].key || (a[i - 1].key == a[i].key && a[i - 1].id < a[i].id), "sort: not sorted or not stable at %d", i);
    for (int i = 0; i < n; i ++) CHECK(key[a[i].id] == a[i].key, "sort: item lost");
    int total = cmp_n; CHECK(total <= n * 12 + 8, "sort: too many comparisons"); if (n > 7) return;
    for (int f = 0; f < total; f ++) { for (int i = 0; i < n; i ++) { a[i].key = key[i]; a[i].id = i; } cmp_left = f; CHECK(rjs_sort(a, n, sizeof(Item), cmp, NULL) == RJS_ERR, "sort: the failure of comparison %d is lost", f); int seen = 0; for (int i = 0; i < n; i ++) { CHECK(a[i].id >= 0 && a[i].id < n, "sort: damaged after a failure"); seen |= 1 << a[i].id; } CHECK(seen == (1 << n) - 1, "sort: item lost after a failure"); }
}
static void sort_all (int N)
{
    for (int n = 0; n <= N; n ++) { int k[16]; memset(k, 0, sizeof k); for (;;) { sort_check(k, n); n_states ++; int i = n - 1; while (i >= 0 && ++ k[i] == (n <= 5 ? 5 : n <= 7 ? 4 : 3)) k[i --] = 0; if (i < 0) break; } }
    for (int n = 9; n < 300; n += n < 70 ? 1 : 23) for (int a = 0; a <= n; a += n < 40 ? 1 : 7) for (int s = 0; s < 4; s ++) { int k[300]; for (int i = 0; i < n; i ++) k[i] = s == 0 ? i >= a : s == 1 ? i < a : s == 2 ? (i + a) % n : (i * (a | 1)) % 7; sort_check(k, n); n_states ++; }
}
/* ---- keys of values: equal values have equal hash keys -------------------------------------------------------------------- */
static void values_all (void)
{
    static const char *src[] = { "undefined", "null", "true", "false", "0", "-0", "1", "-1", "0.5", "-0.5", "NaN", "0/0", "Infinity", "-Infinity", "4294967296", "-4294967297", "1e300", "-1e300", "5e-324", "9007199254740993", "''", "'a'", "'a'+''", "'ab'", "'a'+'b'", "'0'", "'1'", "String(1)", "'abcdefghijklmnopqrstuvwxyz'", "'abcdefghijklm'+'nopqrstuvwxyz'", "'\\ud800'", "'\\u0100x'", "Symbol.iterator", "Symbol.for('q')", "0n", "-0n", "1n", "BigInt(1)", "-1n", "2n**64n", "2n**63n*2n", "-(2n**64n)", "globalThis", "Array" };
    int n = sizeof src / sizeof *src; size_t top = rjs_value_stack_save(rt); RJS_Value *v = rjs_value_stack_push_n(rt, n), *s = rjs_value_stack_push(rt); RJS_Value *script = rjs_value_stack_push(rt);
    for (int i = 0; i < n; i ++) { char b[200]; sprintf(b, "(%s)", src[i]); rjs_string_from_chars(rt, s, b, -1); if (rjs_script_from_string(rt, script, s, NULL, RJS_FALSE) == RJS_ERR || rjs_script_evaluation(rt, script, rjs_value_buffer_item(rt, v, i)) == RJS_ERR) fail("values: cannot evaluate %s", src[i]); }
    for (int i = 0; i < n; i ++) for (int j = 0; j < n; j ++) for (int o = 0; o < 2; o ++) {
        const RJS_HashOps *ops = o ? &rjs_hash_value_ops_0 : &rjs_hash_value_ops; RJS_Value *a = rjs_value_buffer_item(rt, v, i), *b = rjs_value_buffer_item(rt, v, j); n_trans ++; tl = 0; t_add("%s %s %d", src[i], src[j], o);
        int eq = ops->equal(rt, a, b), same = o ? rjs_same_value_0(rt, a, b) : rjs_same_value(rt, a, b); CHECK(!!eq == !!same, "values: equality of the table"); if (i == j) CHECK(eq, "values: a value is not equal to itself");
        if (eq) CHECK(ops->key(rt, a) == ops->key(rt, b), "values: equal values with different keys");
    }
    n_states += n; rjs_value_stack_restore(rt, top);
}
int main (int argc, char **argv)
{
    const char *c = argv[1]; int n = atoi(argv[2]);
    if (!strcmp(c, "rbt")) rbt_all(n); else if (!strcmp(c, "hash")) hash_all(n); else if (!strcmp(c, "list")) list_all(n); else if (!strcmp(c, "sort")) sort_all(n);
    else {
        rt = rjs_runtime_new(); if (!rt) return 3;
        if (!strcmp(c, "vector")) seqs(vec_run, 13, n); else if (!strcmp(c, "cbuf")) seqs(cbuf_run, 13, n); else if (!strcmp(c, "ubuf")) seqs(ubuf_run, 12, n);
        else if (!strcmp(c, "stack")) seqs(vs_run, 10, n); else if (!strcmp(c, "vlist")) seqs(vl_run, 7, n); else if (!strcmp(c, "values")) values_all(); else return 3;
        rjs_runtime_free(rt);
    }
    printf("ok %ld %ld\n", n_states, n_trans); return 0;
}
