/*
 * Pool allocations made by ftwin's own code become separate heap blocks (linked with
 * --wrap), so that ASan sees their bounds and lifetime, and TSan the unsynchronised use
 * of one pool. The blocks live exactly as long as the memory of the pool: they are
 * released by the cleanup registered first, which runs after all the others.
 */
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <apr_pools.h>
#include <apr_strings.h>

#if defined(__SANITIZE_THREAD__)
void __tsan_write8(void *addr);
#define NOTE_POOL(p) __tsan_write8(p)
#else
#define NOTE_POOL(p) ((void) 0)
#endif

struct arena { void **v; size_t n, cap; };
static const char key[] = "poolguard";

static apr_status_t drop(void *x)
{
    struct arena *a = x;
    for (size_t i = 0; i < a->n; i++) free(a->v[i]);
    free(a->v);
    free(a);
    return APR_SUCCESS;
}
static struct arena *arena_of(apr_pool_t *p)
{
    void *a = NULL;
    apr_pool_userdata_get(&a, key, p);
    if (!a) {
        a = calloc(1, sizeof(struct arena));
        apr_pool_cleanup_register(p, a, drop, apr_pool_cleanup_null);
        apr_pool_userdata_setn(a, key, NULL, p);
    }
    return a;
}
apr_status_t __real_apr_pool_create_ex(apr_pool_t **n, apr_pool_t *parent, apr_abortfunc_t f, apr_allocator_t *al);
apr_status_t __wrap_apr_pool_create_ex(apr_pool_t **n, apr_pool_t *parent, apr_abortfunc_t f, apr_allocator_t *al)
{
    apr_status_t s = __real_apr_pool_create_ex(n, parent, f, al);
    if (s == APR_SUCCESS) arena_of(*n);
    return s;
}
void *__wrap_apr_palloc(apr_pool_t *p, apr_size_t n)
{
    NOTE_POOL(p);
    struct arena *a = arena_of(p);
    char *b = malloc(n ? n : 1);
    if (!b) return NULL;
    memset(b, 0xA5, n);
    if (a->n == a->cap) a->v = realloc(a->v, (a->cap = a->cap ? 2 * a->cap : 16) * sizeof *a->v);
    a->v[a->n++] = b;
    return b;
}
void *__wrap_apr_pcalloc(apr_pool_t *p, apr_size_t n)
{
    void *b = __wrap_apr_palloc(p, n);
    return b ? memset(b, 0, n) : NULL;
}
char *__wrap_apr_pstrmemdup(apr_pool_t *p, const char *s, apr_size_t n)
{
    if (!s) return NULL;
    char *b = __wrap_apr_palloc(p, n + 1);
    memcpy(b, s, n);
    b[n] = 0;
    return b;
}
char *__wrap_apr_pstrdup(apr_pool_t *p, const char *s) { return s ? __wrap_apr_pstrmemdup(p, s, strlen(s)) : NULL; }
char *__wrap_apr_pstrndup(apr_pool_t *p, const char *s, apr_size_t n)
{
    if (!s) return NULL;
    const char *e = memchr(s, 0, n);
    return __wrap_apr_pstrmemdup(p, s, e ? (size_t) (e - s) : n);
}
void *__wrap_apr_pmemdup(apr_pool_t *p, const void *m, apr_size_t n) { return m ? memcpy(__wrap_apr_palloc(p, n), m, n) : NULL; }
char *__wrap_apr_pstrcat(apr_pool_t *p, ...)
{
    va_list a;
    size_t n = 0;
    const char *s;
    va_start(a, p);
    while ((s = va_arg(a, const char *))) n += strlen(s);
    va_end(a);
    char *b = __wrap_apr_palloc(p, n + 1), *c = b;
    va_start(a, p);
    while ((s = va_arg(a, const char *))) { size_t l = strlen(s); memcpy(c, s, l); c += l; }
    va_end(a);
    *c = 0;
    return b;
}
char *__real_apr_pvsprintf(apr_pool_t *p, const char *f, va_list a);
char *__wrap_apr_pvsprintf(apr_pool_t *p, const char *f, va_list a) { return __wrap_apr_pstrdup(p, __real_apr_pvsprintf(p, f, a)); }
char *__wrap_apr_psprintf(apr_pool_t *p, const char *f, ...)
{
    va_list a;
    va_start(a, f);
    char *s = __wrap_apr_pvsprintf(p, f, a);
    va_end(a);
    return s;
}
