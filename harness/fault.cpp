// operator new that can be made to fail: the n-th request from now on, or that and all later ones, until disarmed.
#include <cstdlib>
#include <new>

static thread_local long long countdown = -1;
static thread_local bool lasting = false, fired = false;

extern "C" void bi_arm(long long n, int all) { fired = false; lasting = all != 0; countdown = n; }
extern "C" int bi_disarm() { countdown = -1; return fired; }

static void* take(size_t n) {
    if (countdown >= 0) {
        if (countdown == 0) { fired = true; if (!lasting) countdown = -1; throw std::bad_alloc(); }
        countdown--;
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
