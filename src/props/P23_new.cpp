// counting allocation functions (on top of the sanitizer's malloc)
#include <cstdlib>
#include <new>
#include <malloc.h>
thread_local long mem_live = 0, mem_peak = 0;
static void *counted(void *p) { if(!p) throw std::bad_alloc(); mem_live += (long)malloc_usable_size(p); if(mem_live > mem_peak) mem_peak = mem_live; return p; }
static void given_back(void *p) noexcept { if(p) { mem_live -= (long)malloc_usable_size(p); std::free(p); } }
void *operator new(std::size_t n) { return counted(std::malloc(n ? n : 1)); }
void *operator new[](std::size_t n) { return counted(std::malloc(n ? n : 1)); }
void *operator new(std::size_t n, std::nothrow_t const &) noexcept { void *p = std::malloc(n ? n : 1); return p ? counted(p) : p; }
void *operator new[](std::size_t n, std::nothrow_t const &) noexcept { void *p = std::malloc(n ? n : 1); return p ? counted(p) : p; }
void *operator new(std::size_t n, std::align_val_t a) { std::size_t k = (std::size_t)a; return counted(aligned_alloc(k, (n + k) / k * k)); }
void *operator new[](std::size_t n, std::align_val_t a) { std::size_t k = (std::size_t)a; return counted(aligned_alloc(k, (n + k) / k * k)); }
void operator delete(void *p) noexcept { given_back(p); }
void operator delete[](void *p) noexcept { given_back(p); }
void operator delete(void *p, std::size_t) noexcept { given_back(p); }
void operator delete[](void *p, std::size_t) noexcept { given_back(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { given_back(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { given_back(p); }
void operator delete(void *p, std::align_val_t) noexcept { given_back(p); }
void operator delete[](void *p, std::align_val_t) noexcept { given_back(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { given_back(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { given_back(p); }
