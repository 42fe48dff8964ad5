/* Preloaded into the command line tool: the keys of its hash maps follow VH_HASH_SEED. */
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
static uint64_t state;
static int ready;
static uint64_t next(void) {
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    (void)flags;
    if (!ready) {
        const char *s = getenv("VH_HASH_SEED");
        state = s ? strtoull(s, 0, 10) : 1;
        ready = 1;
    }
    for (size_t i = 0; i < len; i++) ((unsigned char *)buf)[i] = (unsigned char)next();
    return (ssize_t)len;
}
