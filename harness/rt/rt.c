/* Native side of the harness interface: replays one input.
 * RSYM_INPUT=hex, RSYM_PARAMS=comma separated integers.
 * exit codes: 0 completed, 3 check failed, 77 assumption false, 78 input exhausted,
 *             101 panic/abort, 0 with "EXPECTED-PANIC" when a panic was required. */
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static const char *in;
static int inited;
static int expect;
static unsigned char *obs;
static size_t nobs, cobs;
static unsigned __int128 reached;

static void dump(const char *what) {
    printf("RSYM %s obs=", what);
    for (size_t i = 0; i < nobs; i++) printf("%02x", obs[i]);
    printf(" reach=%llx%016llx\n", (unsigned long long)(reached >> 64), (unsigned long long)reached);
    fflush(stdout);
}
static void on_abort(int s) {
    (void)s;
    if (expect) {
        dump("EXPECTED-PANIC");
        _exit(0);
    }
    dump("PANIC");
    _exit(101);
}
static void on_segv(int s) {
    (void)s;
    dump("SIGNAL");
    _exit(102);
}
static void on_exit_dump(void) { dump("DONE"); }
__attribute__((constructor)) static void init(void) {
    in = getenv("RSYM_INPUT");
    if (!in) in = "";
    signal(SIGABRT, on_abort);
    signal(SIGSEGV, on_segv);
    signal(SIGBUS, on_segv);
    signal(SIGILL, on_segv);
    signal(SIGFPE, on_segv);
    atexit(on_exit_dump);
    inited = 1;
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
void rsym_bytes(uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) {
        if (!in[0]) {
            dump("INPUT-EXHAUSTED");
            _exit(78);
        }
        p[i] = hexv(in[0]) * 16 + hexv(in[1]);
        in += 2;
    }
}
void rsym_assume(bool b) {
    if (!b) {
        dump("ASSUMED-AWAY");
        _exit(77);
    }
}
void rsym_assert(bool b, uint32_t id) {
    if (!b) {
        char t[64];
        snprintf(t, sizeof t, "CHECK-FAILED id=%u", id);
        dump(t);
        _exit(3);
    }
}
void rsym_fail(uint32_t id) { rsym_assert(false, id); }
uint64_t rsym_param(uint32_t i) {
    const char *s = getenv("RSYM_PARAMS");
    if (!s) return 0;
    for (; i > 0; i--) {
        s = strchr(s, ',');
        if (!s) return 0;
        s++;
    }
    return strtoull(s, 0, 10);
}
uint64_t rsym_concretize(uint64_t x) { return x; }
void rsym_expect_panic(bool b) { expect = b; }
void rsym_reach(uint32_t i) { reached |= (unsigned __int128)1 << (i & 127); }
void rsym_observe(const uint8_t *p, size_t n) {
    if (nobs + n > cobs) {
        cobs = (nobs + n) * 2;
        obs = realloc(obs, cobs);
    }
    memcpy(obs + nobs, p, n);
    nobs += n;
}
bool rsym_is_sym(void) { return false; }
uint64_t rsym_alloc_peak(void) { return 0; }
void rsym_alloc_mark(void) {}
void rsym_merge(uint32_t m) { (void)m; }
