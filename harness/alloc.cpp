// operator new replacement: refuses absurd single allocations, can count
// allocations down (logical-step watchdog for loops inside the library) and can
// inject a failure at the n-th allocation.  malloc underneath stays the
// sanitizer's, so red zones and quarantine are unaffected.
#include "mon.hpp"
#include <malloc.h>
namespace mon {
size_t alloc_cap = size_t(1) << 28;
long long alloc_total_cap = 4ll << 30;
std::atomic<bool> alloc_total_hit { false };
int alloc_fill = 0xa5;
thread_local long long alloc_budget = -1;
thread_local bool alloc_budget_hit = false;
thread_local long long alloc_fail_at = 0;
std::atomic<long long> alloc_live { 0 }, alloc_live_n { 0 };
static void drop(void* p) noexcept
{
    if (!p)
        return;
    alloc_live -= static_cast<long long>(malloc_usable_size(p));
    --alloc_live_n;
    free(p);
}
static void* counted(void* p) noexcept
{
    if (p) {
        alloc_live += static_cast<long long>(malloc_usable_size(p));
        ++alloc_live_n;
    }
    return p;
}
static void* get(size_t n)
{
    if (n > alloc_cap)
        throw std::bad_alloc();
    if (alloc_budget >= 0) {
        if (alloc_budget == 0) {
            alloc_budget_hit = true;
            alloc_budget = -1; // let the unwinding allocate
            throw std::bad_alloc();
        }
        --alloc_budget;
    }
    if (alloc_live + static_cast<long long>(n) > alloc_total_cap) {
        alloc_total_hit = true;
        throw std::bad_alloc();
    }
    if (alloc_fail_at > 0 && --alloc_fail_at == 0)
        throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    // fresh memory is never zero by luck: values left uninitialised show up
    memset(p, alloc_fill, n < 8192 ? n : 8192);
    return counted(p);
}
} // namespace mon
#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !__has_feature(thread_sanitizer) // which brings its own
void* operator new(size_t n) { return mon::get(n); }
void* operator new[](size_t n) { return mon::get(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return mon::counted(malloc(n ? n : 1)); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return mon::counted(malloc(n ? n : 1)); }
void operator delete(void* p, std::nothrow_t const&) noexcept { mon::drop(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { mon::drop(p); }
void operator delete(void* p) noexcept { mon::drop(p); }
void operator delete[](void* p) noexcept { mon::drop(p); }
void operator delete(void* p, size_t) noexcept { mon::drop(p); }
void operator delete[](void* p, size_t) noexcept { mon::drop(p); }
#endif

namespace mon {
int run_main(int argc, char** argv, std::map<string, PropFn> const& props)
{
    Ctx c;
    string status;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        auto val = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") c.prop = val();
        else if (a == "--seed") c.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") c.tier = val();
        else if (a == "--out") c.out = val();
        else if (a == "--scratch") c.scratch = val();
        else if (a == "--status") status = val();
        else if (a == "--variant") c.variant = val();
        else if (a == "--case") {
            string v = val();
            auto p = v.rfind(':');
            c.only = true;
            c.only_name = v.substr(0, p);
            c.only_idx = strtoull(v.c_str() + p + 1, nullptr, 10);
        } else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    c.thorough = c.tier == "thorough";
    c.st = &c.local;
    if (!status.empty()) {
        int fd = ::open(status.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0)
            return 3;
        void* m = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
        if (m == MAP_FAILED)
            return 3;
        c.st = static_cast<Status*>(m);
    }
    auto it = props.find(c.prop);
    if (it == props.end()) {
        fprintf(stderr, "no such property here: %s\n", c.prop.c_str());
        return 3;
    }
    it->second(c);
    c.st->finished = 1;
    if (!c.out.empty()) {
        c.write_out();
        string sig;
        for (uint64_t d : c.distinct)
            sig.append(reinterpret_cast<char const*>(&d), 8);
        write_file(c.out + ".sig", sig);
    }
    return c.viol.empty() ? 0 : 10;
}
} // namespace mon
