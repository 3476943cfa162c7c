/* Interposes getrandom(2) for the command line program, so that the iteration order of its hash
 * tables is a function of VMON_HASH_SEED. */
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
static uint64_t state;
static int ready;
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    (void)flags;
    if (!ready) {
        const char *s = getenv("VMON_HASH_SEED");
        state = s ? strtoull(s, 0, 10) : 1;
        ready = 1;
    }
    unsigned char *b = buf;
    for (size_t i = 0; i < len; i++) {
        state += 0x9E3779B97F4A7C15ull;
        uint64_t z = state;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        b[i] = (unsigned char)((z ^ (z >> 31)) >> 13);
    }
    return (ssize_t)len;
}
