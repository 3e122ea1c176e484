#include "disk.hh"
#include <cstdlib>
#include <cstring>
#include <new>

// Fresh heap memory holds a fixed pattern, so a read of an uninitialised member is the same in every
// execution of a seed.
void* operator new(size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, 0x5A, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

int main(int argc, char** argv) { dst::scratchRoot(); return dst::dstMain(argc, argv, dst::registry()); }
