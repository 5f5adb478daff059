/* Seam for the content of uninitialised array memory: numpy's data allocator, with memory filled with a chosen word. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

volatile uint64_t dst_word = 0; /* 0: leave memory as the C library hands it out */
volatile int dst_on = 0;
volatile uint64_t dst_filled = 0; /* arrays filled so far */

static void fill(char *p, size_t from, size_t to)
{
    uint64_t w = dst_word;
    size_t i = from;
    for (; i + 8 <= to; i += 8)
        memcpy(p + i, &w, 8);
    if (i < to)
        memcpy(p + i, &w, to - i);
    dst_filled++;
}

void *dst_malloc(void *ctx, size_t size)
{
    char *p = malloc(size);
    if (p && dst_on)
        fill(p, 0, size);
    return p;
}

void *dst_calloc(void *ctx, size_t n, size_t size) { return calloc(n, size); }

void *dst_realloc(void *ctx, void *ptr, size_t size)
{
    return realloc(ptr, size);
}

void dst_free(void *ctx, void *ptr, size_t size)
{
    if (ptr && dst_on)
        fill(ptr, 0, size); /* what is read after it was freed */
    free(ptr);
}

typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *, size_t);
} Allocator;

typedef struct {
    char name[127];
    uint8_t version;
    Allocator allocator;
} Handler;

/* Redirect an existing handler (numpy's default one, which threads use too). Both sides end in malloc and free. */
int dst_install(Handler *h)
{
    if (h->version != 1 || strcmp(h->name, "default_allocator") != 0)
        return -1;
    h->allocator.malloc = dst_malloc;
    h->allocator.calloc = dst_calloc;
    h->allocator.realloc = dst_realloc;
    h->allocator.free = dst_free;
    return 0;
}
