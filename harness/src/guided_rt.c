/* What the instrumented code calls. In C, because it must not be instrumented itself. */
#include <stdint.h>
#include <stddef.h>

#define VP (1u << 20)
int cov_on;
/* comparison outcomes seen so far; new ones in this run */
static uint8_t seen[VP];
uint64_t cov_new;
/* constants and strings the code compares with */
uint64_t cov_consts[2048], cov_nconsts;
struct word { uint8_t n, b[40]; } cov_words[512];
uint64_t cov_nwords;
static uint8_t sites[1 << 16];
static struct { uint8_t *a, *b; } areas[64];
static int nareas;

void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
    if (a == b) return;
    for (int i = 0; i < nareas; i++) if (areas[i].a == a) return;
    if (nareas < 64) { areas[nareas].a = a; areas[nareas++].b = b; }
}
void __sanitizer_cov_pcs_init(const void *a, const void *b) { (void)a; (void)b; }

#define PC ((uint64_t)__builtin_return_address(0) - (uint64_t)&__sanitizer_cov_pcs_init)
static inline void feature(uint64_t f) { f &= VP - 1; if (!seen[f]) { seen[f] = 1; cov_new++; } }
static inline int fresh(uint64_t pc) { uint64_t i = (pc * 0x9E3779B1u >> 3) & 0xFFFF; if (sites[i]) return 0; return sites[i] = 1; }
static void constant(uint64_t c) {
    for (uint64_t i = 0; i < cov_nconsts; i++) if (cov_consts[i] == c) return;
    if (cov_nconsts < 2048) cov_consts[cov_nconsts++] = c;
}
static inline void compared(uint64_t a, uint64_t b, uint64_t pc) {
    uint64_t base = (pc * 0x9E3779B1u) << 7, d = a - b;
    feature(base + __builtin_popcountll(a ^ b));
    if ((int64_t)d < 0) d = -d;
    feature(base + 64 + (d ? (63 - __builtin_clzll(d)) % 63 + 1 : 0));
}
#define CMP(n, t) \
    void __sanitizer_cov_trace_cmp##n(t a, t b) { if (cov_on) compared(a, b, PC); } \
    void __sanitizer_cov_trace_const_cmp##n(t a, t b) { if (cov_on) { uint64_t pc = PC; if (fresh(pc)) constant(a); compared(a, b, pc); } }
CMP(1, uint8_t) CMP(2, uint16_t) CMP(4, uint32_t) CMP(8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, const uint64_t *t) {
    if (!cov_on) return;
    uint64_t pc = PC;
    int f = fresh(pc);
    for (uint64_t i = 0; i < t[0] && i < 64; i++) { if (f) constant(t[2 + i]); compared(v, t[2 + i], pc + i * 977); }
}

/* comparisons of strings */
extern const uint8_t __executable_start[], _end[];
static void word(const uint8_t *p, size_t n) {
    uint64_t j;
    size_t i;
    /* only what is part of the program */
    if (p < __executable_start || p >= _end || cov_nwords >= 512) return;
    for (j = 0; j < cov_nwords; j++) {
        if (cov_words[j].n != n) continue;
        for (i = 0; i < n && cov_words[j].b[i] == p[i]; i++);
        if (i == n) return;
    }
    for (i = 0; i < n; i++) cov_words[cov_nwords].b[i] = p[i];
    cov_words[cov_nwords++].n = n;
}
int memcmp(const void *x, const void *y, size_t n) {
    const uint8_t *a = x, *b = y;
    size_t i;
    for (i = 0; i < n && a[i] == b[i]; i++);
    if (cov_on && n > 1 && n <= 40) { word(a, n); word(b, n); feature((PC * 0x9E3779B1u << 7) + i); }
    return i < n ? a[i] - b[i] : 0;
}
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }

void cov_clear(void) {
    for (int k = 0; k < nareas; k++) __builtin_memset(areas[k].a, 0, areas[k].b - areas[k].a);
    cov_new = 0;
}
uint64_t cov_size(void) { uint64_t n = 0; for (int k = 0; k < nareas; k++) n += areas[k].b - areas[k].a; return n; }
/* how many counters took a range of values that they had not taken, with what is new among the comparisons */
uint64_t cov_collect(uint8_t *had) {
    uint64_t new = 0;
    for (int k = 0; k < nareas; k++) {
        uint64_t n = areas[k].b - areas[k].a;
        const uint8_t *a = areas[k].a;
        for (uint64_t i = 0; i < n; i++) {
            uint64_t w;
            if (i + 8 <= n && (__builtin_memcpy(&w, a + i, 8), !w)) { i += 7; continue; }
            uint8_t v = a[i], bit;
            if (!v) continue;
            bit = v < 3 ? v : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
            if (!(had[i] & bit)) { had[i] |= bit; new++; }
        }
        had += n;
    }
    return new + cov_new;
}
