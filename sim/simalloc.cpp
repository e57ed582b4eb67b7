// Allocator seam: replaces operator new/delete inside each extension module.
//  * fresh memory is filled from a seeded stream (so "uninitialised" reads are
//    a deterministic function of the seed, and differ between seeds),
//  * the n-th allocation can be made to fail,
//  * live bytes and blocks are counted.
// Inactive (state.fill == 0, state.fail_at < 0) it is a plain malloc/free.
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <new>
#include <malloc.h>

struct SimAllocState {
    int64_t fill;       // 0 off, else seed
    int64_t count;      // allocations seen since the counter was reset
    int64_t fail_at;    // fail the allocation with this ordinal (<0: never)
    int64_t fail_min;   // only count allocations of at least this many bytes
    int64_t failed;     // how many failures were injected
    int64_t live_bytes;
    int64_t live_blocks;
    int64_t filled;
    int64_t persist;    // 1: keep failing after fail_at
    int64_t voro_bytes, voro_blocks;    // live memory that voro++ asked for
    int64_t voro_failed;                // failures injected into voro++ itself
};

extern "C" __attribute__((visibility("default"))) SimAllocState sim_alloc_state = {0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0};

// blocks that voro++ (the library pyscal bundles) asked for: open addressing
static const std::size_t SLOTS = 1 << 18;
static void **voro_set = nullptr;
static void *const GONE = (void *)1;
static std::size_t voro_gone = 0;
static std::size_t slot_of(void *p) { return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> 46; }
static void voro_add(void *p) {
    SimAllocState &s = sim_alloc_state;
    if (!voro_set) voro_set = (void **)std::calloc(SLOTS, sizeof(void *));
    if (!voro_set || s.voro_blocks > (int64_t)SLOTS / 2) return;
    std::size_t i = slot_of(p);
    while (voro_set[i] && voro_set[i] != GONE) i = (i + 1) % SLOTS;
    voro_set[i] = p;
    s.voro_bytes += (int64_t)malloc_usable_size(p);
    s.voro_blocks++;
}
static void voro_remove(void *p) {
    SimAllocState &s = sim_alloc_state;
    if (!s.voro_blocks) return;
    std::size_t n = 0;
    for (std::size_t i = slot_of(p); voro_set[i] && n++ < SLOTS; i = (i + 1) % SLOTS)
        if (voro_set[i] == p) {
            voro_set[i] = voro_set[(i + 1) % SLOTS] ? GONE : nullptr;
            s.voro_bytes -= (int64_t)malloc_usable_size(p);
            voro_gone += voro_set[i] == GONE;
            if (!--s.voro_blocks && voro_gone > 1000) {
                std::memset(voro_set, 0, SLOTS * sizeof(void *));
                voro_gone = 0;
            }
            return;
        }
}

static void *sim_alloc(std::size_t n, bool nothrow) {
    SimAllocState &s = sim_alloc_state;
    if (n == 0) n = 1;
    if ((int64_t)n >= s.fail_min) {
        int64_t c = s.count++;
        if (s.fail_at >= 0 && (c == s.fail_at || (s.persist && c > s.fail_at))) {
            s.failed++;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    void *p = std::malloc(n);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    s.live_bytes += (int64_t)malloc_usable_size(p);
    s.live_blocks++;
    if (s.fill) {
        // cheap deterministic fill: one 64-bit word per allocation pattern
        uint64_t x = (uint64_t)s.fill;
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        std::size_t m = n / 8;
        uint64_t *w = (uint64_t *)p;
        for (std::size_t i = 0; i < m; i++) w[i] = x;
        unsigned char b = (unsigned char)(x >> 8);
        for (std::size_t i = m * 8; i < n; i++) ((unsigned char *)p)[i] = b;
        s.filled++;
    }
    return p;
}
static void sim_free(void *p) {
    if (!p) return;
    SimAllocState &s = sim_alloc_state;
    voro_remove(p);
    s.live_bytes -= (int64_t)malloc_usable_size(p);
    s.live_blocks--;
    std::free(p);
}
void *operator new(std::size_t n) { return sim_alloc(n, false); }
void *operator new[](std::size_t n) { return sim_alloc(n, false); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, true); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, true); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, std::size_t) noexcept { sim_free(p); }
void operator delete[](void *p, std::size_t) noexcept { sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_free(p); }

// what the object file of voro++ calls instead of operator new (see build.py)
extern "C" void *sim_voro_new(std::size_t n) {
    SimAllocState &s = sim_alloc_state;
    int64_t failed = s.failed;
    try {
        void *p = sim_alloc(n, false);
        voro_add(p);
        return p;
    } catch (...) {
        s.voro_failed += s.failed - failed;
        throw;
    }
}
extern "C" void *sim_voro_new_array(std::size_t n) { return sim_voro_new(n); }
