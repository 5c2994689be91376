/* A small SAT solver: clause learning with watched literals.  Built as an IPASIR library or, with -DMAIN, as a DIMACS command that can be
   told how to print its answer and where to die. */
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef struct { int *lits; int n; } Clause;
typedef struct { Clause **c; int n, cap; } Watch;
typedef struct {
    Clause **cl; int ncl, capcl;
    int nv, capv;
    signed char *val; char *known; Watch *w;
    int *trail; int nt, head;
    int *dec; int nd;
    Clause **reason; int *level; char *seen; double *act; double inc;
    int *cur; int ncur, capcur;
    int empty, answer, calls;
    int satisfied_only;
} S;

static int idx(int l) { return l > 0 ? 2 * l : -2 * l + 1; }

static void grow(S *s, int v) {
    if (v <= s->nv) return;
    if (v + 1 > s->capv) {
        int c = (v + 1) * 2 + 16;
        s->val = realloc(s->val, c); s->known = realloc(s->known, c);
        s->w = realloc(s->w, sizeof(Watch) * (2 * c + 2));
        memset(s->val + s->capv, 0, c - s->capv); memset(s->known + s->capv, 0, c - s->capv);
        memset(s->w + 2 * s->capv, 0, sizeof(Watch) * (2 * c + 2 - 2 * s->capv));
        s->trail = realloc(s->trail, sizeof(int) * (c + 1)); s->dec = realloc(s->dec, sizeof(int) * (c + 1));
        s->reason = realloc(s->reason, sizeof(Clause *) * (c + 1)); s->level = realloc(s->level, sizeof(int) * (c + 1));
        s->seen = realloc(s->seen, c + 1); memset(s->seen, 0, c + 1);
        s->act = realloc(s->act, sizeof(double) * (c + 1));
        for (int i = s->capv; i <= c; i++) s->act[i] = 0;
        s->capv = c;
    }
    s->nv = v;
}
static int value(S *s, int l) { int v = s->val[abs(l)]; return l > 0 ? v : -v; }
static void watch(S *s, int l, Clause *c) {
    Watch *w = &s->w[idx(l)];
    if (w->n == w->cap) { w->cap = w->cap * 2 + 4; w->c = realloc(w->c, sizeof(*w->c) * w->cap); }
    w->c[w->n++] = c;
}
static void assign(S *s, int l, Clause *why) { int v = abs(l); s->val[v] = l > 0 ? 1 : -1; s->reason[v] = why; s->level[v] = s->nd; s->trail[s->nt++] = l; }

static Clause *propagate(S *s) {
    while (s->head < s->nt) {
        int l = -s->trail[s->head++];
        Watch *w = &s->w[idx(l)];
        int j = 0;
        for (int i = 0; i < w->n; i++) {
            Clause *c = w->c[i];
            if (c->lits[0] == l) { c->lits[0] = c->lits[1]; c->lits[1] = l; }
            if (value(s, c->lits[0]) > 0) { w->c[j++] = c; continue; }
            int k;
            for (k = 2; k < c->n && value(s, c->lits[k]) < 0; k++);
            if (k < c->n) { c->lits[1] = c->lits[k]; c->lits[k] = l; watch(s, c->lits[1], c); continue; }
            w->c[j++] = c;
            if (value(s, c->lits[0]) < 0) { for (i++; i < w->n; i++) w->c[j++] = w->c[i]; w->n = j; return c; }
            assign(s, c->lits[0], c);
        }
        w->n = j;
    }
    return NULL;
}
static void undo(S *s, int to) { while (s->nt > to) s->val[abs(s->trail[--s->nt])] = 0; s->head = s->nt; }

static int all_satisfied(S *s) {
    for (int i = 0; i < s->ncl; i++) {
        int k;
        for (k = 0; k < s->cl[i]->n && value(s, s->cl[i]->lits[k]) <= 0; k++);
        if (k == s->cl[i]->n) return 0;
    }
    return 1;
}

static Clause *store(S *s, int *lits, int n) {
    Clause *c = malloc(sizeof(Clause));
    c->n = n; c->lits = malloc(sizeof(int) * n); memcpy(c->lits, lits, sizeof(int) * n);
    if (s->ncl == s->capcl) { s->capcl = s->capcl * 2 + 64; s->cl = realloc(s->cl, sizeof(Clause *) * s->capcl); }
    s->cl[s->ncl++] = c;
    if (n > 1) { watch(s, c->lits[0], c); watch(s, c->lits[1], c); }
    return c;
}

static void backjump(S *s, int level) { if (s->nd > level) { undo(s, s->dec[level]); s->nd = level; } }

static int solve(S *s) {
    backjump(s, 0); undo(s, 0);
    if (s->empty) return 20;
    for (int i = 0; i < s->ncl; i++)
        if (s->cl[i]->n == 1) { int v = value(s, s->cl[i]->lits[0]); if (v < 0) return 20; if (!v) assign(s, s->cl[i]->lits[0], s->cl[i]); }
    int *learnt = malloc(sizeof(int) * (s->nv + 2));
    if (s->inc == 0) s->inc = 1;
    for (;;) {
        Clause *conf = propagate(s);
        if (conf) {
            if (!s->nd) { free(learnt); return 20; }
            int n = 1, open = 0, k = s->nt, p = 0;
            for (;;) {
                for (int i = 0; i < conf->n; i++) {
                    int q = conf->lits[i], v = abs(q);
                    if (q == p || s->seen[v] || s->level[v] == 0) continue;
                    s->seen[v] = 1; s->act[v] += s->inc;
                    if (s->level[v] == s->nd) open++; else learnt[n++] = q;
                }
                while (!s->seen[abs(s->trail[--k])]);
                p = s->trail[k]; conf = s->reason[abs(p)]; s->seen[abs(p)] = 0;
                if (--open == 0) break;
            }
            learnt[0] = -p;
            int to = 0;
            for (int i = 1; i < n; i++) {
                s->seen[abs(learnt[i])] = 0;
                if (s->level[abs(learnt[i])] > to) { to = s->level[abs(learnt[i])]; int t = learnt[1]; learnt[1] = learnt[i]; learnt[i] = t; }
            }
            backjump(s, to);
            assign(s, learnt[0], store(s, learnt, n));
            s->inc *= 1.05;
            if (s->inc > 1e100) { for (int v = 1; v <= s->nv; v++) s->act[v] *= 1e-100; s->inc *= 1e-100; }
            continue;
        }
        if (s->satisfied_only && all_satisfied(s)) { free(learnt); return 10; }
        int best = 0;
        for (int v = 1; v <= s->nv; v++) if (!s->val[v] && s->known[v] && (!best || s->act[v] > s->act[best])) best = v;
        if (!best) { free(learnt); return 10; }
        s->dec[s->nd++] = s->nt;
        assign(s, -best, NULL);
    }
}

static S *s_new(void) { return calloc(1, sizeof(S)); }
static void s_add(S *s, int l) {
    if (l) {
        if (s->ncur == s->capcur) { s->capcur = s->capcur * 2 + 8; s->cur = realloc(s->cur, sizeof(int) * s->capcur); }
        s->cur[s->ncur++] = l; grow(s, abs(l)); s->known[abs(l)] = 1;
        return;
    }
    undo(s, 0); s->nd = 0;
    int n = 0, taut = 0;
    for (int i = 0; i < s->ncur; i++) {
        int k;
        for (k = 0; k < n && s->cur[k] != s->cur[i]; k++) if (s->cur[k] == -s->cur[i]) taut = 1;
        if (k == n) s->cur[n++] = s->cur[i];
    }
    s->ncur = 0;
    if (taut) return;
    if (n == 0) { s->empty = 1; return; }
    store(s, s->cur, n);
}

#ifndef MAIN
/* MODE 0: values of all variables; 1: stops when all clauses are satisfied, unassigned variables are "don't care";
   2: gives up at call number FAIL; 3: answers with an undefined code at call FAIL */
#ifndef MODE
#define MODE 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
const char *ipasir_signature(void) { return "dpll"; }
void *ipasir_init(void) { S *s = s_new(); s->satisfied_only = MODE == 1; return s; }
void ipasir_release(void *p) {
    S *s = p;
    for (int i = 0; i < s->ncl; i++) { free(s->cl[i]->lits); free(s->cl[i]); }
    for (int i = 0; i < 2 * s->capv + 2 && s->w; i++) free(s->w[i].c);
    free(s->cl); free(s->val); free(s->known); free(s->w); free(s->trail); free(s->dec); free(s->reason); free(s->level); free(s->seen); free(s->act); free(s->cur); free(s);
}
void ipasir_add(void *p, int32_t l) { s_add(p, l); }
void ipasir_assume(void *p, int32_t l) { (void)p; (void)l; abort(); }
int ipasir_solve(void *p) {
    S *s = p;
    s->calls++;
    if (MODE == 2 && s->calls == FAIL) return s->answer = 0;
    if (MODE == 3 && s->calls == FAIL) return s->answer = 7;
    return s->answer = solve(s);
}
int32_t ipasir_val(void *p, int32_t l) {
    S *s = p;
    int v = abs(l);
    if (s->answer != 10) { fprintf(stderr, "ipasir_val without a model\n"); return 0; }
    if (v > s->nv || !s->known[v]) return 0;
    return s->val[v] == 0 ? 0 : (s->val[v] > 0 ? v : -v);
}
int ipasir_failed(void *p, int32_t l) { (void)p; (void)l; return 0; }
void ipasir_set_terminate(void *p, void *d, int (*f)(void *)) { (void)p; (void)d; (void)f; }
void ipasir_set_learn(void *p, void *d, int n, void (*f)(void *, int32_t *)) { (void)p; (void)d; (void)n; (void)f; }
#else
static char *buf; static size_t nbuf, capbuf;
static void put(const char *t) {
    size_t n = strlen(t);
    if (nbuf + n + 1 > capbuf) { capbuf = (nbuf + n + 1) * 2; buf = realloc(buf, capbuf); }
    memcpy(buf + nbuf, t, n + 1); nbuf += n;
}
/* dpll FORMAT CUT DEATH [FILE]   CUT: bytes to print (-1: all, -2: print only the length); DEATH: 0 exit code 0, 1 exit 10/20, 2 SIGKILL, 3 die before reading,
   4 keep the pipe open for a moment before dying */
int main(int argc, char **argv) {
    if (argc < 4) return 99;
    int fmt = atoi(argv[1]); long cut = atol(argv[2]); int death = atoi(argv[3]);
    if (death == 3) { if (write(1, "c hello\n", cut < 0 || cut > 8 ? 8 : cut) < 0) return 9; kill(getpid(), SIGKILL); }
    FILE *f = argc > 4 ? fopen(argv[4], "r") : stdin;
    if (!f) return 98;
    S *s = s_new();
    int c, header = 0; long declared = 0, seen = 0; int nv = 0;
    while ((c = getc(f)) != EOF) {
        if (c == 'c' ) { while ((c = getc(f)) != EOF && c != '\n'); continue; }
        if (c == 'p') { if (fscanf(f, " cnf %d %ld", &nv, &declared) != 2) return 97; header = 1; grow(s, nv); continue; }
        if (c == '-' || (c >= '0' && c <= '9')) { int l; ungetc(c, f); if (fscanf(f, "%d", &l) != 1) return 96; if (abs(l) > nv) return 95; s_add(s, l); seen += l == 0; }
    }
    if (!header || seen != declared || s->ncur) return 94;
    for (int v = 1; v <= nv; v++) s->known[v] = 1;
    int r = solve(s);
    char t[64];
    if (fmt == 2) put("c a comment\nc\nc another one s SATISFIABLE\n");
    put(r == 10 ? "s SATISFIABLE\n" : "s UNSATISFIABLE\n");
    if (r == 10) {
        int col = 0;
        if (fmt == 0) put("v");
        for (int v = 1; v <= nv + 1; v++) {
            sprintf(t, " %d", v > nv ? 0 : (s->val[v] > 0 ? v : -v));
            if (fmt == 3) { put("v"); put(t); put("\n"); continue; }
            if (fmt != 0 && col == 0) { put("v"); col = 1; }
            put(t); col += strlen(t);
            if (fmt != 0 && (col > 60 || v > nv)) { put("\n"); col = 0; if (fmt == 2) put("c between\nc\n"); }
        }
        if (fmt == 0) put("\n");
    }
    if (fmt == 4) put("c the end\nc 0\n");
    if (cut == -2) { printf("%zu\n", nbuf); return 0; }
    if (cut < 0 || (size_t)cut > nbuf) cut = nbuf;
    for (long k = 0; k < cut; ) { long n = write(1, buf + k, cut - k); if (n <= 0) break; k += n; }
    if (death == 4) usleep(30000);
    if (death == 2) kill(getpid(), SIGKILL);
    _exit(death == 1 ? r : 0);
}
#endif
