/* NumPy data allocator that poisons fresh memory (MPI windows and np.empty are
 * uninitialized: whatever is read before being written must be noticed).  */

#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *, size_t);
} Allocator;

typedef struct {
    char name[127];
    uint8_t version;
    Allocator allocator;
} Handler;

static void *p_malloc(void *ctx, size_t size) {
    void *p = malloc(size ? size : 1);
    if (p) memset(p, 0x7f, size);
    return p;
}

static void *p_calloc(void *ctx, size_t n, size_t size) {
    return calloc(n ? n : 1, size ? size : 1);
}

static void *p_realloc(void *ctx, void *p, size_t size) {
    return realloc(p, size ? size : 1);
}

static void p_free(void *ctx, void *p, size_t size) {
    free(p);
}

Handler handler = {"mc_poison", 1,
    {0, p_malloc, p_calloc, p_realloc, p_free}};
