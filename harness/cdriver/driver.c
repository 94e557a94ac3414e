/* Replays the corpus through the C functions exactly as a C program would: the
 * generated header, the static library. */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "c_eth_kzg.h"

static uint8_t *data;
static long calls, bad;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

typedef struct { size_t n; uint8_t **p; size_t *len; } list;

static void complain(const char *id, const char *op, const char *what) {
    pthread_mutex_lock(&lock);
    if (bad++ < 5) printf("BAD %s %s: %s\n", id, op, what);
    pthread_mutex_unlock(&lock);
}
/* every item in a block of its own, of exactly its size */
static uint8_t *item(const char *t, size_t *len) {
    size_t o, n;
    if (sscanf(t, "%zu:%zu", &o, &n) != 2) { fprintf(stderr, "bad token %s\n", t); exit(3); }
    uint8_t *p = malloc(n);
    memcpy(p, data + o, n);
    if (len) *len = n;
    return p;
}
static list items(char *t) {
    list l = {0, NULL, NULL};
    if (!strcmp(t, "-")) return l;
    size_t n = 1;
    for (char *c = t; *c; c++) n += *c == ',';
    l.p = malloc(n * sizeof *l.p);
    l.len = malloc(n * sizeof *l.len);
    char *s;
    for (char *x = strtok_r(t, ",", &s); x; x = strtok_r(NULL, ",", &s)) { l.p[l.n] = item(x, &l.len[l.n]); l.n++; }
    return l;
}
static uint64_t *words(char *t, size_t *n) {
    *n = 0;
    if (!strcmp(t, "-")) return NULL;
    size_t m = 1;
    for (char *c = t; *c; c++) m += *c == ',';
    uint64_t *w = malloc(m * sizeof *w);
    char *s;
    for (char *x = strtok_r(t, ",", &s); x; x = strtok_r(NULL, ",", &s)) w[(*n)++] = strtoull(x, NULL, 10);
    return w;
}
static void drop(list l) {
    for (size_t i = 0; i < l.n; i++) free(l.p[i]);
    free(l.p);
    free(l.len);
}
static int settle(CResult r, const char *id, const char *op) {
    if (r.status == Ok) {
        if (r.error_msg) complain(id, op, "Ok with a message");
        return 1;
    }
    if (r.status != Err) complain(id, op, "a status that is neither Ok nor Err");
    if (!r.error_msg) { complain(id, op, "Err without a message"); return 0; }
    if (!strlen(r.error_msg)) complain(id, op, "an empty message");
    eth_kzg_free_error_message(r.error_msg);
    return 0;
}
static void compare(int ok, const char *want, uint8_t **cells, uint8_t **proofs, const char *id, const char *op) {
    if (!strcmp(want, "error")) {
        if (ok) complain(id, op, "Ok instead of Err");
        return;
    }
    if (!ok) { complain(id, op, "Err instead of Ok"); return; }
    size_t a, b, c, d;
    if (sscanf(want, "data=%zu:%zu,%zu:%zu", &a, &b, &c, &d) != 4) { complain(id, op, "Ok instead of another answer"); return; }
    for (size_t k = 0; k < 128; k++) {
        if (memcmp(cells[k], data + a + 2048 * k, 2048)) { complain(id, op, "a wrong cell"); return; }
        if (memcmp(proofs[k], data + c + 48 * k, 48)) { complain(id, op, "a wrong proof"); return; }
    }
}

static void run_line(DASContext *ctx, char *line) {
    char *s, *id = strtok_r(line, " ", &s), *op = strtok_r(NULL, " ", &s), *want = strtok_r(NULL, " ", &s);
    char *a[4] = {0};
    for (int i = 0; i < 4; i++) {
        a[i] = strtok_r(NULL, " ", &s);
        if (!a[i] || !strcmp(a[i], "#")) { a[i] = NULL; break; }
    }
    if (!strcmp(op, "commit")) {
        size_t n;
        uint8_t *b = item(a[0], &n), *o = malloc(48);
        int ok = settle(eth_kzg_blob_to_kzg_commitment(ctx, b, o), id, op);
        size_t x, y;
        if (!strcmp(want, "error")) { if (ok) complain(id, op, "Ok instead of Err"); }
        else if (!ok) complain(id, op, "Err instead of Ok");
        else if (sscanf(want, "com=%zu:%zu", &x, &y) != 2 || memcmp(o, data + x, 48)) complain(id, op, "a wrong commitment");
        free(b);
        free(o);
    } else if (!strcmp(op, "verify")) {
        list c = items(a[0]), ce = items(a[2]), p = items(a[3]);
        size_t n;
        uint64_t *w = words(a[1], &n);
        bool *v = malloc(1);
        int ok = settle(eth_kzg_verify_cell_kzg_proof_batch(ctx, c.n, (const uint8_t *const *)c.p, n, w, ce.n,
                        (const uint8_t *const *)ce.p, p.n, (const uint8_t *const *)p.p, v), id, op);
        const char *got = !ok ? "error" : *v ? "valid" : "invalid";
        if (strcmp(got, want)) complain(id, op, got);
        drop(c); drop(ce); drop(p);
        free(w);
        free(v);
    } else {
        uint8_t *cells[128], *proofs[128];
        for (int k = 0; k < 128; k++) { cells[k] = malloc(2048); proofs[k] = malloc(48); }
        int ok;
        if (!strcmp(op, "compute")) {
            uint8_t *b = item(a[0], NULL);
            ok = settle(eth_kzg_compute_cells_and_kzg_proofs(ctx, b, cells, proofs), id, op);
            free(b);
        } else {
            size_t n;
            uint64_t *w = words(a[0], &n);
            list ce = items(a[1]);
            ok = settle(eth_kzg_recover_cells_and_proofs(ctx, ce.n, (const uint8_t *const *)ce.p, n, w, cells, proofs), id, op);
            drop(ce);
            free(w);
        }
        compare(ok, want, cells, proofs, id, op);
        for (int k = 0; k < 128; k++) { free(cells[k]); free(proofs[k]); }
    }
    __atomic_add_fetch(&calls, 1, __ATOMIC_SEQ_CST);
}

static char **lines;
static size_t n_lines, next_line;
static DASContext *shared;
static void *work(void *x) {
    (void)x;
    for (;;) {
        size_t i = __atomic_fetch_add(&next_line, 1, __ATOMIC_SEQ_CST);
        if (i >= n_lines) return NULL;
        char *l = strdup(lines[i]);
        run_line(shared, l);
        free(l);
    }
}

int main(int argc, char **argv) {
    char path[4096];
    if (argc < 3) return 3;
    snprintf(path, sizeof path, "%s/data.bin", argv[1]);
    FILE *f = fopen(path, "rb");
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    rewind(f);
    data = malloc(n);
    if (fread(data, 1, n, f) != (size_t)n) return 3;
    fclose(f);
    snprintf(path, sizeof path, "%s/index.txt", argv[1]);
    f = fopen(path, "r");
    char *l = NULL;
    size_t cap = 0;
    ssize_t m;
    while ((m = getline(&l, &cap, f)) > 0) {
        if (l[m - 1] == '\n') l[m - 1] = 0;
        lines = realloc(lines, (n_lines + 1) * sizeof *lines);
        lines[n_lines++] = strdup(l);
    }
    free(l);
    fclose(f);
    if (eth_kzg_constant_bytes_per_cell() != 2048 || eth_kzg_constant_bytes_per_proof() != 48 || eth_kzg_constant_cells_per_ext_blob() != 128)
        complain("-", "constants", "a wrong value");
    shared = eth_kzg_das_context_new(false, 2);
    pthread_t t[6];
    for (int i = 0; i < 6; i++) pthread_create(&t[i], NULL, work, NULL);
    for (int i = 0; i < 6; i++) pthread_join(t[i], NULL);
    eth_kzg_das_context_free(shared);
    eth_kzg_das_context_free(NULL);
    eth_kzg_free_error_message(NULL);
    printf("COUNT calls from C %ld\n", calls);
    printf("DONE\n");
    return 0;
}
