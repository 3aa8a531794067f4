// Monitoring framework shared by all harnesses: seeded case generation, event
// counters, verdict recording and evidence output.  It never looks at the
// library's sources; it only drives the public API and watches what comes out.
#pragma once
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon {
using std::string;
using std::vector;

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL)
{
    auto c = static_cast<unsigned char const*>(p);
    while (n >= 8) {
        uint64_t w;
        memcpy(&w, c, 8);
        h = mix(h ^ w);
        c += 8;
        n -= 8;
    }
    while (n--)
        h = (h ^ *c++) * 0x100000001b3ULL;
    return mix(h);
}
inline uint64_t hash_str(string const& s) { return hash_bytes(s.data(), s.size()); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { }
    uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t lo, int64_t hi)
    {
        uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
        uint64_t r = span ? u64() % span : u64();
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + r);
    }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
    string bytes(size_t n)
    {
        string r(n, '\0');
        for (size_t i = 0; i < n; ++i)
            r[i] = static_cast<char>(u64() & 0xff);
        return r;
    }
};

struct Fail : std::runtime_error {
    string key;
    Fail(string k, string const& m) : std::runtime_error(m), key(std::move(k)) { }
};
inline string vfmt(char const* f, va_list ap)
{
    char b[2048];
    vsnprintf(b, sizeof b, f, ap);
    return b;
}
[[gnu::format(printf, 1, 2)]] inline string fmt(char const* f, ...)
{
    va_list ap;
    va_start(ap, f);
    string r = vfmt(f, ap);
    va_end(ap);
    return r;
}
[[noreturn]] inline void fail(string key, string const& msg) { throw Fail(std::move(key), msg); }
inline void check(bool ok, char const* key, string const& msg)
{
    if (!ok)
        fail(key, msg);
}
#define MON_CHECK(cond, key, ...)                                                                                      \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            ::mon::fail(key, ::mon::fmt(__VA_ARGS__));                                                                 \
    } while (0)

inline string jstr(string const& s)
{
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 32 || c > 126) {
            r += fmt("\\u%04x", c);
        } else
            r += static_cast<char>(c);
    }
    return r + "\"";
}

// ---- allocation watch (operator new is replaced in alloc.cpp) -------------
extern long long alloc_total_cap;              // all live allocations together above this: reported, see cases()
extern std::atomic<bool> alloc_total_hit;
extern size_t alloc_cap;                       // single allocations above this fail with bad_alloc
extern thread_local long long alloc_budget;    // <0: unlimited; counts down, then bad_alloc + flag
extern thread_local bool alloc_budget_hit;
extern std::atomic<long long> alloc_live, alloc_live_n; // bytes and blocks of operator new not yet deleted (not under tsan)
extern int alloc_fill; // what fresh memory is filled with
extern thread_local long long alloc_fail_at;   // >0: the n-th allocation from now fails (one shot)

struct Status {
    volatile uint64_t magic, case_idx, pass, finished;
    char name[64];
    char note[448];
};

struct Ctx {
    string prop, tier = "quick", out, scratch = ".", variant = "?";
    uint64_t seed = 1;
    bool thorough = false;
    string only_name;
    uint64_t only_idx = 0;
    bool only = false;
    uint64_t skip_until_idx = 0;
    std::map<string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    uint64_t evals = 0;
    vector<string> samples;
    std::map<string, uint64_t> sample_per_kind;
    struct V { string key, msg, name; uint64_t idx; };
    vector<V> viol;
    bool stop = false;
    Status* st = nullptr;
    Status local {};

    void count(string const& k, uint64_t n = 1) { counters[k] += n; }
    // what makes a case non-trivial is decided by the caller; sig identifies it
    void nontrivial(uint64_t sig) { distinct.insert(sig); }
    void nontrivial(string const& sig) { distinct.insert(hash_str(sig)); }
    void sample(string const& kind, string const& s)
    {
        auto& n = sample_per_kind[kind];
        if (n < 2 && samples.size() < 24) {
            ++n;
            samples.push_back(kind + ": " + s);
        }
    }
    void note(string const& s)
    {
        snprintf(st->note, sizeof st->note, "%s", s.c_str());
    }
    string path(string const& n) const { return scratch + "/" + n; }

    uint64_t scaled(uint64_t quick, uint64_t thor) const { return thorough ? thor : quick; }

    // runs n independent seeded cases
    long long case_budget = -1; // allocations a case may make, for workloads of small files
    void cases(string const& name, uint64_t n, std::function<void(Rng&, uint64_t)> const& fn)
    {
        if (only && only_name != name)
            return;
        uint64_t done = 0;
        for (uint64_t i = 0; i < n; ++i) {
            if (stop)
                return;
            if (only && i != only_idx)
                continue;
            snprintf(st->name, sizeof st->name, "%s", name.c_str());
            st->note[0] = 0;
            st->case_idx = i;
            Rng r(mix(seed * 1000003 + hash_str(prop + "/" + name)) ^ mix(i + 77));
            ++evals;
            alloc_budget = case_budget;
            try {
                fn(r, i);
            } catch (Fail const& f) {
                violation(f.key, f.what(), name, i);
            } catch (std::exception const& e) {
                violation(string("unexpected-exception/") + name, string(typeid(e).name()) + ": " + e.what(), name, i);
            } catch (...) {
                violation(string("non-std-exception/") + name, "an exception not derived from std::exception escaped", name, i);
            }
            alloc_budget = -1;
            alloc_fail_at = 0;
            if (alloc_budget_hit) {
                alloc_budget_hit = false;
                violation("endless/" + name, "allocates without end", name, i);
                if (counters["endless:" + name]++ > 5)
                    stop = true;
            }
            if (alloc_total_hit) { // a loop that gathers without end; no case needs that much
                alloc_total_hit = false;
                violation("memory/" + name, "more than " + std::to_string(alloc_total_cap >> 20) + " MB in use at once", name, i);
                stop = true;
            }
            ++done;
        }
        counters["cases:" + name] += done;
    }
    void violation(string const& key, string const& msg, string const& name, uint64_t i)
    {
        // one entry per key; a second instance of the same key adds nothing
        for (auto& v : viol)
            if (v.key == key) {
                count("repeat:" + key);
                if (counters["repeat:" + key] > 200)
                    stop = true;
                return;
            }
        viol.push_back({ key, msg, name, i });
        fprintf(stderr, "MONITOR[%s %s] case %s:%" PRIu64 ": %s: %s\n", prop.c_str(), variant.c_str(), name.c_str(), i,
            key.c_str(), msg.c_str());
        if (viol.size() >= 40)
            stop = true;
    }
    void write_out()
    {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) {
            perror("out");
            exit(3);
        }
        fprintf(f, "{\"prop\":%s,\"evaluations\":%" PRIu64 ",\"distinct\":%zu,\"counters\":{", jstr(prop).c_str(), evals,
            distinct.size());
        bool first = true;
        for (auto& c : counters) {
            fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(c.first).c_str(), c.second);
            first = false;
        }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto& s : samples) {
            fprintf(f, "%s%s", first ? "" : ",", jstr(s.substr(0, 400)).c_str());
            first = false;
        }
        fprintf(f, "],\"violations\":[");
        first = true;
        for (auto& v : viol) {
            fprintf(f, "%s{\"key\":%s,\"msg\":%s,\"case\":%s}", first ? "" : ",", jstr(v.key).c_str(),
                jstr(v.msg.substr(0, 1500)).c_str(), jstr(v.name + ":" + std::to_string(v.idx)).c_str());
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
    }
};

inline void write_file(string const& p, string const& d)
{
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) {
        perror(p.c_str());
        exit(3);
    }
    size_t o = 0;
    while (o < d.size()) {
        ssize_t k = ::write(fd, d.data() + o, d.size() - o);
        if (k <= 0) {
            perror("write");
            exit(3);
        }
        o += static_cast<size_t>(k);
    }
    ::close(fd);
}
inline string read_file(string const& p)
{
    int fd = ::open(p.c_str(), O_RDONLY);
    if (fd < 0)
        return {};
    string r;
    struct stat sb;
    fstat(fd, &sb);
    r.resize(static_cast<size_t>(sb.st_size));
    size_t o = 0;
    while (o < r.size()) {
        ssize_t k = ::read(fd, &r[o], r.size() - o);
        if (k <= 0)
            break;
        o += static_cast<size_t>(k);
    }
    r.resize(o);
    ::close(fd);
    return r;
}
inline string hex(string const& s, size_t off, size_t n)
{
    string r;
    for (size_t i = off; i < off + n && i < s.size(); ++i)
        r += fmt("%02x", static_cast<unsigned char>(s[i]));
    return r;
}
// number equality: same value (signed zeros equal), or both NaN
inline bool same_num(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

using PropFn = void (*)(Ctx&);
int run_main(int argc, char** argv, std::map<string, PropFn> const& props);
} // namespace mon
