/* Stands in for the native library and watches what the Go binding does with it. */
#define _GNU_SOURCE
#include "c_eth_kzg.h"
#include <stdatomic.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>

#define ALIVE 0x616c697665u
struct DASContext { atomic_ulong state; atomic_long users; };

atomic_long w_created, w_freed, w_double_freed, w_used_dead, w_freed_in_use, w_calls, w_msgs, w_msgs_freed, w_msgs_alien, w_in_flight;

struct DASContext *eth_kzg_das_context_new(bool p, uint32_t n) {
    (void)p; (void)n;
    struct DASContext *c = calloc(1, sizeof *c); /* never returned to the allocator, so it can be looked at for ever */
    c->state = ALIVE;
    w_created++;
    return c;
}
void eth_kzg_das_context_free(struct DASContext *c) {
    if (!c) return;
    if (atomic_exchange(&c->state, 0) != ALIVE) w_double_freed++;
    else w_freed++;
    if (c->users) w_freed_in_use++;
}
struct msg { unsigned long magic; char text[40]; };
#define LIVE_MSG 0x6c6976656d736721ul
static struct CResult failure(void) {
    struct msg *m = calloc(1, sizeof *m);
    m->magic = LIVE_MSG;
    strcpy(m->text, "the stand-in says no");
    w_msgs++;
    struct CResult r = { Err, m->text };
    return r;
}
void eth_kzg_free_error_message(char *p) {
    if (!p) return;
    struct msg *m = (struct msg *)(p - __builtin_offsetof(struct msg, text));
    if (m->magic != LIVE_MSG) { w_msgs_alien++; return; }
    m->magic = 0;
    w_msgs_freed++;
}
static void nap(unsigned us) { if (us) usleep(us); }
/* blob[0]: 0 succeeds, 1 fails; blob[1]: hundreds of microseconds to take */
struct CResult eth_kzg_blob_to_kzg_commitment(const struct DASContext *cc, const uint8_t *blob, uint8_t *out) {
    struct DASContext *c = (struct DASContext *)cc;
    struct CResult ok = { Ok, NULL };
    w_calls++;
    w_in_flight++;
    c->users++;
    if (c->state != ALIVE) w_used_dead++;
    for (int i = 0; i < 4; i++) {
        nap(blob[1] * 25u);
        if (c->state != ALIVE) { w_used_dead++; break; }
    }
    c->users--;
    w_in_flight--;
    if (blob[0]) return failure();
    for (int i = 0; i < 48; i++) out[i] = blob[i + 2] ^ 0x5a;
    return ok;
}
struct CResult eth_kzg_compute_cells_and_kzg_proofs(const struct DASContext *c, const uint8_t *b, uint8_t **x, uint8_t **y) { (void)c; (void)b; (void)x; (void)y; return failure(); }
struct CResult eth_kzg_verify_cell_kzg_proof_batch(const struct DASContext *c, uint64_t a, const uint8_t *const *b, uint64_t d, const uint64_t *e, uint64_t f, const uint8_t *const *g, uint64_t h, const uint8_t *const *i, bool *v)
{ (void)c; (void)a; (void)b; (void)d; (void)e; (void)f; (void)g; (void)h; (void)i; (void)v; return failure(); }
struct CResult eth_kzg_recover_cells_and_proofs(const struct DASContext *c, uint64_t a, const uint8_t *const *b, uint64_t d, const uint64_t *e, uint8_t **x, uint8_t **y)
{ (void)c; (void)a; (void)b; (void)d; (void)e; (void)x; (void)y; return failure(); }
uint64_t eth_kzg_constant_bytes_per_cell(void) { return 2048; }
uint64_t eth_kzg_constant_bytes_per_proof(void) { return 48; }
uint64_t eth_kzg_constant_cells_per_ext_blob(void) { return 128; }
long w_get(int i) {
    atomic_long *t[] = { &w_created, &w_freed, &w_double_freed, &w_used_dead, &w_freed_in_use, &w_calls, &w_msgs, &w_msgs_freed, &w_msgs_alien, &w_in_flight };
    return *t[i];
}
