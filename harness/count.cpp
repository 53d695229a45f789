// Counts the storage obtained and not given back: malloc and its relatives, for the whole process.
// Linked into the driver, or loaded before the Python interpreter.
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <malloc.h>

static std::atomic<long long> blocks{0}, bytes{0};

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);

long long bi_blocks() { return blocks; }
long long bi_bytes() { return bytes; }

static void* in(void* p) { if (p) { blocks++; bytes += (long long) malloc_usable_size(p); } return p; }
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void free(void* p) { if (!p) return; blocks--; bytes -= (long long) malloc_usable_size(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) {
    long long was = p ? (long long) malloc_usable_size(p) : 0;
    void* q = __libc_realloc(p, n);
    if (p && (q || n == 0)) { blocks--; bytes -= was; }
    return in(q);
}
void* memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void** out, size_t a, size_t n) { void* p = in(__libc_memalign(a, n)); if (!p) return ENOMEM; *out = p; return 0; }
}
