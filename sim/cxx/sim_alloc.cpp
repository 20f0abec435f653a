// Counts what the backend itself gets from malloc (what it gets from operator new is counted in os/sim_os.c).
#include <cstddef>
#include <cstdint>

extern "C" {

void * __real_malloc(size_t n);
void * __real_calloc(size_t k, size_t n);
void * __real_realloc(void * p, size_t n);
void __real_free(void * p);
void simos_heap_count(void * p, int sign) __attribute__((weak));

void * __wrap_malloc(size_t n)
{
    void * p = __real_malloc(n);
    if (p && simos_heap_count) { simos_heap_count(p, 1); }
    return p;
}

void * __wrap_calloc(size_t k, size_t n)
{
    void * p = __real_calloc(k, n);
    if (p && simos_heap_count) { simos_heap_count(p, 1); }
    return p;
}

void * __wrap_realloc(void * old, size_t n)
{
    if (old && simos_heap_count) { simos_heap_count(old, -1); }
    void * p = __real_realloc(old, n);
    if (p && simos_heap_count) { simos_heap_count(p, 1); }
    return p;
}

void __wrap_free(void * p)
{
    if (p && simos_heap_count) { simos_heap_count(p, -1); }
    __real_free(p);
}

}
