#include "auth.h"
#include "commands.h"
#include "parts.h"
#include <cstdlib>
#include <new>
static long s_arrays = 0;
void *operator new[](std::size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++s_arrays;
    return p;
}
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept
{
    void *p = malloc(n ? n : 1);
    if (p) ++s_arrays;
    return p;
}
void operator delete[](void *p, const std::nothrow_t &) noexcept { if (p) --s_arrays; free(p); }
void operator delete[](void *p) noexcept { if (p) --s_arrays; free(p); }
void operator delete[](void *p, std::size_t) noexcept { if (p) --s_arrays; free(p); }
namespace parts {
long arraysInUse() { return s_arrays; }
}
int main(int argc, char **argv)
{
    H::init(argc, argv);
    std::string m = H::mode();
    return H::loop([&](H::Rng &r) {
        if (m == "P13") parts::selection(r);
        else if (m == "P14") parts::partitions(r);
        else if (m == "P16") parts::buffers(r);
        else if (m == "P17") parts::totals(r);
        else if (m == "P25") commands::run(r);
        else if (m == "P24") auth::service(r);
        else if (m == "P18") parts::statistics(r);
        else H::fail("unknown mode");
    }, 100);
}
