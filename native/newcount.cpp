// Preloaded: counts the bytes and blocks that operator new has handed out and not got back, and the
// most bytes it had handed out at a time; also reads
// the C heap in use.
#include <atomic>
#include <cstdlib>
#include <malloc.h>
#include <new>

static std::atomic<long> bytes{0}, blocks{0}, calls{0}, peak{0};

static void* take(std::size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (p) {
        long now = bytes += (long) malloc_usable_size(p);
        for (long top = peak; now > top && !peak.compare_exchange_weak(top, now);) {
        }
        blocks += 1;
        calls += 1;
    }
    return p;
}

static void give(void* p) {
    if (p) {
        bytes -= (long) malloc_usable_size(p);
        blocks -= 1;
        std::free(p);
    }
}

void* operator new(std::size_t n) {
    void* p = take(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](std::size_t n) {
    void* p = take(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

extern "C" long verif_live_bytes() { return bytes.load(); }
extern "C" long verif_live_blocks() { return blocks.load(); }
extern "C" long verif_new_calls() { return calls.load(); }
extern "C" void verif_reset_peak() { peak = bytes.load(); }
extern "C" long verif_peak_bytes() { return peak.load(); }
extern "C" long verif_heap_bytes() {
    struct mallinfo2 m = mallinfo2();
    return (long) (m.uordblks + m.hblkhd);
}
