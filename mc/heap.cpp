// Owns the heap as an environment choice: what a fresh block held before, and
// where small blocks lie relative to each other. Default: an implausible
// pattern, addresses as the C library gives them.
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <sys/mman.h>
extern "C" {
void *__libc_malloc(size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
void *__libc_realloc(void *, size_t);
void *__libc_calloc(size_t, size_t);
}
namespace {
volatile int g_fill = 0xFE;
volatile int g_order = 0; // 0 C library, 1 descending, 2 alternately low and high
constexpr size_t ARENA = 1ull << 32, PAGE = 1 << 16, MAXB = 1024, CLASSES = MAXB / 16 + 1;
char *g_base = nullptr;
uint8_t g_class[ARENA / PAGE]; // size class of each page
struct Node {
  Node *next;
};
struct Stream {
  Node *freeList[CLASSES];
  char *page[CLASSES];
  size_t left[CLASSES];
} g_stream[2];
size_t g_low = 0, g_high = ARENA / PAGE; // next pages at both ends
unsigned g_toggle = 0;
std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
std::atomic<long> g_blocks{0}, g_bytes{0}; // handed out and not yet given back
bool mine(const void *p) { return g_base && (char *)p >= g_base && (char *)p < g_base + ARENA; }
size_t sizeOf(const void *p) { return 16 * (size_t)g_class[((char *)p - g_base) / PAGE]; }
void *take(size_t n) {
  const size_t k = n ? (n + 15) / 16 : 1;
  while (g_lock.test_and_set(std::memory_order_acquire))
    ;
  Stream &s = g_stream[g_order == 2 ? g_toggle++ & 1 : 0];
  const bool low = &s == &g_stream[1];
  char *r = nullptr;
  if (s.freeList[k]) {
    r = (char *)s.freeList[k];
    s.freeList[k] = s.freeList[k]->next;
  } else {
    if (!s.left[k] && g_low < g_high) {
      const size_t pg = low ? g_low++ : --g_high;
      g_class[pg] = (uint8_t)k;
      s.page[k] = g_base + pg * PAGE;
      s.left[k] = PAGE / (16 * k);
    }
    if (s.left[k]) // from the end of the page towards its start
      r = s.page[k] + 16 * k * --s.left[k];
  }
  g_lock.clear(std::memory_order_release);
  return r;
}
void give(void *p) {
  const size_t k = g_class[((char *)p - g_base) / PAGE];
  while (g_lock.test_and_set(std::memory_order_acquire))
    ;
  Stream &s = g_stream[(size_t)((char *)p - g_base) / PAGE < g_low ? 1 : 0];
  ((Node *)p)->next = s.freeList[k];
  s.freeList[k] = (Node *)p;
  g_lock.clear(std::memory_order_release);
}
size_t usable(const void *p) { // the size field of the C library's blocks
  return mine(p) ? sizeOf(p) : (((const size_t *)p)[-1] & ~(size_t)7) - 2 * sizeof(size_t);
}
void *count(void *p, int n) {
  if (p) {
    g_blocks.fetch_add(n, std::memory_order_relaxed);
    g_bytes.fetch_add(n * (long)usable(p), std::memory_order_relaxed);
  }
  return p;
}
void *fill(void *p, size_t n) {
  if (p && g_fill >= 0)
    memset(p, g_fill, n);
  return p;
}
void *get(size_t n) {
  if (g_order && n <= MAXB)
    if (void *p = take(n))
      return p;
  return __libc_malloc(n);
}
} // namespace
extern "C" {
void *malloc(size_t n) { return fill(count(get(n), 1), n); }
void free(void *p) {
  count(p, -1);
  if (mine(p))
    give(p);
  else
    __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  if (g_order && n <= MAXB)
    if (void *p = take(n))
      return memset(count(p, 1), 0, n);
  return count(__libc_calloc(a, b), 1);
}
void *realloc(void *p, size_t n) {
  if (!p)
    return malloc(n);
  if (!mine(p)) {
    const long old = (long)usable(p);
    void *q = __libc_realloc(p, n);
    if (q)
      g_bytes.fetch_add((long)usable(q) - old, std::memory_order_relaxed);
    else if (n == 0) {
      g_bytes.fetch_sub(old, std::memory_order_relaxed);
      g_blocks.fetch_sub(1, std::memory_order_relaxed);
    }
    return q;
  }
  if (n == 0) {
    free(p);
    return nullptr;
  }
  const size_t old = sizeOf(p);
  if (n <= old)
    return p;
  void *q = malloc(n);
  if (q) {
    memcpy(q, p, old);
    free(p);
  }
  return q;
}
void *memalign(size_t a, size_t n) { return fill(count(__libc_memalign(a, n), 1), n); }
void *aligned_alloc(size_t a, size_t n) { return fill(count(__libc_memalign(a, n), 1), n); }
int posix_memalign(void **p, size_t a, size_t n) {
  void *q = __libc_memalign(a, n);
  if (!q)
    return ENOMEM;
  *p = fill(count(q, 1), n);
  return 0;
}
size_t malloc_usable_size(void *p) {
  return p ? usable(p) : 0;
}
}
namespace vh {
void heapFill(int byte) { g_fill = byte; } // -1: leave as it is
long heapBlocks() { return g_blocks; }
long heapBytes() { return g_bytes; }
void heapOrder(int mode) {
  if (mode && !g_base) {
    void *p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
      return;
    g_base = (char *)p;
  }
  g_order = mode;
}
} // namespace vh
