// malloc at fixed addresses: pointer values (and therefore everything derived from them) repeat exactly.
// Arena 0 serves the server before it forks; every run uses arena 1.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <sys/mman.h>
#include <unistd.h>

namespace {
const size_t ARENA = 4ULL << 30;
char *const BASE[2] = {(char *)0x200000000000ULL, (char *)0x210000000000ULL};
char *top[2] = {nullptr, nullptr};
char *end_[2] = {nullptr, nullptr};
int which = 0;
bool poison = false;
struct Hdr { uint64_t size; uint64_t magic; };      // before every block; 16 bytes
const uint64_t LIVE = 0x6a6f6d6c69766521ULL, FREED = 0x6a6f6d6672656564ULL;
struct FreeNode { FreeNode *next; };
const int NCLS = 96;
FreeNode *freel[2][NCLS];
volatile int lk = 0;
struct Lock { Lock() { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) __builtin_ia32_pause(); } ~Lock() { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); } };
inline int cls(size_t n, size_t &rounded)
{
    if (n < 16) n = 16;
    if (n <= 512) { rounded = (n + 15) & ~15ULL; return int(rounded / 16) - 1; }      // 0..31
    int lz = 63 - __builtin_clzll(n - 1);            // 2^lz < n <= 2^(lz+1), lz >= 9
    size_t step = (1ULL << lz) / 4;
    size_t k = (n - (1ULL << lz) + step - 1) / step;  // 1..4
    rounded = (1ULL << lz) + k * step;
    return 32 + (lz - 9) * 4 + int(k) - 1;
}
void grow(int a, size_t need)
{
    if (!top[a]) {
        char *p = (char *)mmap(BASE[a], ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != BASE[a]) { static const char m[] = "sim: cannot map the arena\n"; (void)!write(2, m, sizeof m - 1); _exit(70); }
        top[a] = p; end_[a] = p + ARENA;
    }
    if (top[a] + need > end_[a]) { static const char m[] = "sim: arena full\n"; (void)!write(2, m, sizeof m - 1); _exit(71); }
}
void *alloc(size_t n)
{
    size_t r; int c = cls(n, r);
    Lock l;
    int a = which;
    if (c < NCLS && freel[a][c]) {
        FreeNode *f = freel[a][c];
        freel[a][c] = f->next;
        Hdr *h = (Hdr *)f - 1;
        h->magic = LIVE;
        if (poison) memset(f, 0xCD, r);
        return f;
    }
    grow(a, r + sizeof(Hdr));
    Hdr *h = (Hdr *)top[a];
    top[a] += r + sizeof(Hdr);
    h->size = r; h->magic = LIVE;
    return h + 1;
}
}
extern "C" {
void *malloc(size_t n) { if (n > ARENA / 2) { errno = ENOMEM; return nullptr; } return alloc(n); }
void free(void *p)
{
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != LIVE) { if (h->magic == FREED) __builtin_trap(); return; }       // aligned blocks are never freed
    if ((char *)p < BASE[0] || (char *)p >= BASE[1] + ARENA) return;
    int a = (char *)p >= BASE[1] ? 1 : 0;
    h->magic = FREED;
    if (poison) memset(p, 0xDD, h->size > 4096 ? 4096 : h->size);
    if (a != which) return;
    size_t r; int c = cls(h->size, r);
    Lock l;
    if (c < NCLS) { FreeNode *f = (FreeNode *)p; f->next = freel[a][c]; freel[a][c] = f; }
}
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || n > ARENA / 2) { errno = ENOMEM; return nullptr; }
    void *p = alloc(n);
    memset(p, 0, n);
    return p;
}
void *realloc(void *p, size_t n)
{
    if (!p) return malloc(n);
    Hdr *h = (Hdr *)p - 1;
    if (n && n <= h->size) return p;
    void *q = malloc(n);
    if (q) { memcpy(q, p, h->size < n ? h->size : n); free(p); }
    return q;
}
static void *aligned(size_t al, size_t n)
{
    if (al <= 16) return malloc(n);
    char *p = (char *)alloc(n + al + sizeof(Hdr));
    char *q = (char *)(((uintptr_t)p + sizeof(Hdr) + al - 1) & ~(al - 1));
    Hdr *h = (Hdr *)q - 1;
    h->size = n; h->magic = 0;
    return q;
}
void *memalign(size_t al, size_t n) { return aligned(al, n); }
void *aligned_alloc(size_t al, size_t n) { return aligned(al, n); }
int posix_memalign(void **p, size_t al, size_t n) { *p = aligned(al, n); return 0; }
void *valloc(size_t n) { return aligned(4096, n); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }
int malloc_trim(size_t) { return 0; }
}
namespace sim { void enter_run_arena() { which = 1; poison = true; } }
namespace sim { void alloc_unlock() { lk = 0; } }
