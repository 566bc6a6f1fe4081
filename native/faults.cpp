// Preloaded: operator new that can be told to fail at its nth call, and a read() that can be told to
// return less than asked or to fail once some bytes of one file were read.
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <sys/stat.h>
#include <unistd.h>

static std::atomic<long> blocks{0}, bytes{0};
static std::atomic<long> left{-1}, seen{0}, failed{0};  // operator new
static std::atomic<bool> armed{false};
static std::atomic<long> smallest{0};

static bool fails(std::size_t n) {
    if (!armed || (long) n < smallest) return false;
    seen++;
    if (left < 0) return false;
    if (left-- == 0) {
        failed++;
        return true;
    }
    return false;
}

static void* take(std::size_t n) {
    if (fails(n)) return nullptr;
    void* p = std::malloc(n ? n : 1);
    if (p) {
        blocks++;
        bytes += (long) malloc_usable_size(p);
    }
    return p;
}

static void give(void* p) {
    if (p) {
        blocks--;
        bytes -= (long) malloc_usable_size(p);
        std::free(p);
    }
}

void* operator new(std::size_t n) {
    void* p = take(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](std::size_t n) {
    void* p = take(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

extern "C" {
// of the requests for at least `least` bytes the nth one fails; n < 0: they are only counted
void verif_arm_new(long n, long least) {
    smallest = least;
    left = n;
    seen = failed = 0;
    armed = true;
}
long verif_disarm_new() {
    armed = false;
    left = -1;
    return failed;
}
long verif_new_seen() { return seen; }
long verif_live_blocks() { return blocks; }
long verif_live_bytes() { return bytes; }

static std::atomic<long> rd_inode{-1}, rd_max{0}, rd_after{-1}, rd_done{0}, rd_faults{0}, rd_calls{0};
static std::atomic<int> rd_errno{0}, rd_once{0};

// reads of the file with this inode give at most max bytes at a time (0: as asked); once `after`
// bytes were read they fail with err (err 0: never); once: only one read fails
void verif_arm_read(long inode, long max, long after, int err, int once) {
    rd_max = max;
    rd_after = after;
    rd_errno = err;
    rd_once = once;
    rd_done = rd_faults = rd_calls = 0;
    rd_inode = inode;
}
long verif_disarm_read() {
    rd_inode = -1;
    return rd_faults;
}
long verif_read_calls() { return rd_calls; }

ssize_t read(int fd, void* buf, size_t n) {
    static ssize_t (*real)(int, void*, size_t) =
        (ssize_t(*)(int, void*, size_t)) dlsym(RTLD_NEXT, "read");
    if (rd_inode >= 0) {
        struct stat st;
        if (fstat(fd, &st) == 0 && (long) st.st_ino == rd_inode) {
            rd_calls++;
            if (rd_errno && rd_done >= rd_after && !(rd_once && rd_faults)) {
                rd_faults++;
                errno = rd_errno;
                return -1;
            }
            if (rd_max > 0 && (long) n > rd_max) n = rd_max;
            if (rd_errno && (long) n > rd_after - rd_done && rd_done < rd_after) n = rd_after - rd_done;
            ssize_t r = real(fd, buf, n);
            if (r > 0) rd_done += r;
            return r;
        }
    }
    return real(fd, buf, n);
}
}
