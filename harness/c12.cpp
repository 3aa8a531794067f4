// C12: BCD encode/decode against digit-by-digit spelling, in exactly sized heap
// buffers (a stray byte is an ASan report) with every neighbouring nibble known.
#include "mon.hpp"
#include "util.hpp"
#include <limits>
#include <memory>
using namespace mon;

namespace {
constexpr unsigned long long P10[] = { 1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull,
    100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull };

struct Obs {
    uint64_t enc = 0, dec = 0;
};

int nib(unsigned char const* p, size_t i) { return i & 1 ? p[i / 2] & 15 : p[i / 2] >> 4; }

template <class T>
void one(Obs& o, unsigned long long val, bool skip, int num, unsigned char fill, char const* tn)
{
    // layout: 2 guard bytes, the field, 2 guard bytes
    size_t fb = static_cast<size_t>(num + skip + 1) / 2;
    {
        std::unique_ptr<char[]> b(new char[fb + 4]);
        memset(b.get(), fill, fb + 4);
        char* p = b.get() + 2;
        sedaman::to_bcd<T>(&p, static_cast<T>(val), skip, num);
        MON_CHECK(p == b.get() + 2 + (num + skip) / 2, "encode/cursor", "to_bcd<%s>(%llu, skip %d, %d digits) moved the cursor by %td", tn, val, skip, num, p - b.get() - 2);
        auto u = reinterpret_cast<unsigned char*>(b.get());
        for (size_t i = 0; i < fb + 4; ++i)
            if (i < 2 || i >= fb + 2)
                MON_CHECK(u[i] == fill, "encode/neighbour-byte", "to_bcd<%s>(%llu, skip %d, %d digits) changed byte %td next to the field from %02x to %02x", tn, val, skip, num, static_cast<ptrdiff_t>(i) - 2, fill, u[i]);
        for (int d = 0; d < num; ++d) {
            int want = static_cast<int>(val / P10[num - 1 - d] % 10), got = nib(u + 2, static_cast<size_t>(d + skip));
            MON_CHECK(got == want, "encode/digit", "to_bcd<%s>(%llu, skip %d, %d digits) over %02x: digit %d is %x", tn, val, skip, num, fill, d, got);
        }
        if (skip)
            MON_CHECK(nib(u + 2, 0) == fill >> 4, "encode/half-byte-before", "to_bcd<%s>(%llu, skip, %d digits) changed the half byte before from %x to %x", tn, val, num, fill >> 4, nib(u + 2, 0));
        if ((num + skip) & 1) {
            int l = nib(u + 2, static_cast<size_t>(num + skip));
            MON_CHECK(l == 0 || l == (fill & 15), "encode/half-byte-after", "to_bcd<%s>(%llu, skip %d, %d digits) left %x in the half byte after", tn, val, skip, num, l);
        }
        char const* q = b.get() + 2;
        T back = sedaman::from_bcd<T>(&q, skip, num);
        MON_CHECK(static_cast<unsigned long long>(back) == val, "roundtrip", "from_bcd(to_bcd<%s>(%llu), skip %d, %d digits) = %lld", tn, val, skip, num, static_cast<long long>(back));
        ++o.enc;
    }
    // decoding alone, from a buffer that ends with the field
    {
        std::unique_ptr<char[]> b(new char[fb]);
        auto u = reinterpret_cast<unsigned char*>(b.get());
        memset(u, fill, fb);
        for (int d = 0; d < num; ++d) {
            size_t i = static_cast<size_t>(d + skip);
            int dig = static_cast<int>(val / P10[num - 1 - d] % 10);
            u[i / 2] = static_cast<unsigned char>(i & 1 ? (u[i / 2] & 0xf0) | dig : (u[i / 2] & 15) | dig << 4);
        }
        char const* q = b.get();
        T got = sedaman::from_bcd<T>(&q, skip, num);
        MON_CHECK(static_cast<unsigned long long>(got) == val, "decode/value", "from_bcd<%s>(spelling of %llu, skip %d, %d digits, neighbours %02x) = %lld", tn, val, skip, num, fill, static_cast<long long>(got));
        MON_CHECK(q == b.get() + (num + skip) / 2, "decode/cursor", "from_bcd<%s>(skip %d, %d digits) moved the cursor by %td", tn, skip, num, q - b.get());
        ++o.dec;
    }
}

template <class T> bool fits(unsigned long long v) { return v <= static_cast<unsigned long long>(std::numeric_limits<T>::max()); }

void all_types(Ctx& c, Obs& o, unsigned long long v, bool skip, int num, unsigned char fill, unsigned mask = 0xff)
{
#define TT(bit, T) if ((mask & (1u << bit)) && fits<T>(v)) { one<T>(o, v, skip, num, fill, #T); c.count("width:" #T); }
    TT(0, int8_t) TT(1, uint8_t) TT(2, int16_t) TT(3, uint16_t) TT(4, int32_t) TT(5, uint32_t) TT(6, int64_t) TT(7, uint64_t)
#undef TT
}
} // namespace

static void c12(Ctx& c)
{
    unsigned char const fills[] = { 0x00, 0xff, 0x5a, 0x96, 0xa5, 0x0f, 0xf0 };
    // every value of 1..4 digits, both alignments, every type that holds it
    c.cases("exhaustive", 8, [&](Rng& r, uint64_t i) {
        int num = 1 + static_cast<int>(i / 2);
        bool skip = i & 1;
        Obs o;
        unsigned long long v = 0;
        try {
            for (; v < P10[num]; ++v) {
                all_types(c, o, v, skip, num, fills[r.below(7)], num < 3 || c.thorough ? 0xff : 1u << r.below(8) | 1u << (2 + r.below(6)));
                c.nontrivial(mix(v * 64 + static_cast<uint64_t>(num) * 2 + skip));
            }
        } catch (Fail&) {
            throw;
        }
        c.count("encodings", o.enc);
        c.count("decodings", o.dec);
        c.count(fmt("exhausted_digits:%d:%s", num, skip ? "low-half-first" : "aligned"));
    });
    // single digits and boundaries over every neighbouring byte content
    c.cases("neighbours", 256, [&](Rng& r, uint64_t i) {
        Obs o;
        for (int num = 1; num <= 12; ++num)
            for (int s = 0; s < 2; ++s) {
                unsigned long long v = r.below(P10[num]);
                all_types(c, o, v, s, num, static_cast<unsigned char>(i));
                all_types(c, o, P10[num] - 1, s, num, static_cast<unsigned char>(i), 0xc0);
                all_types(c, o, P10[num - 1], s, num, static_cast<unsigned char>(i), 0xc0);
                all_types(c, o, 0, s, num, static_cast<unsigned char>(i), 0x11);
                c.nontrivial(mix(v * 64 + static_cast<uint64_t>(num * 2 + s)));
            }
        c.count("encodings", o.enc);
        c.count("decodings", o.dec);
    });
    // long fields: random, and one non-zero digit at each position
    c.cases("long", c.scaled(400, 20000), [&](Rng& r, uint64_t i) {
        Obs o;
        int num = 5 + static_cast<int>(r.below(8));
        bool s = r.chance(1, 2);
        unsigned long long v = 0;
        if (i % 3 == 0) {
            v = P10[r.below(static_cast<uint64_t>(num))] * (1 + r.below(9));
        } else if (i % 3 == 1)
            v = r.below(P10[1 + r.below(static_cast<uint64_t>(num))]);
        else
            for (int d = 0; d < num; ++d) // digits around the double-dabble threshold
                v = v * 10 + 3 + r.below(4);
        all_types(c, o, v, s, num, static_cast<unsigned char>(r.u64()));
        c.nontrivial(mix(v * 64 + static_cast<uint64_t>(num * 2 + s)));
        c.sample("long", fmt("%llu as %d digits from the %s half byte", v, num, s ? "low" : "high"));
        c.count("encodings", o.enc);
        c.count("decodings", o.dec);
    });
    // the limits of every width
    c.cases("limits", 1, [&](Rng&, uint64_t) {
        Obs o;
        for (unsigned long long v : { 127ull, 128ull, 255ull, 32767ull, 32768ull, 65535ull, 2147483647ull, 4294967295ull, 999999999999ull })
            for (int num = 1; num <= 12; ++num)
                if (v < P10[num])
                    for (int s = 0; s < 2; ++s)
                        all_types(c, o, v, s, num, 0xc3);
        c.count("encodings", o.enc);
        c.count("decodings", o.dec);
    });
    // several fields packed one after the other, as headers are
    c.cases("packed", c.scaled(2000, 200000), [&](Rng& r, uint64_t) {
        int n = 2 + static_cast<int>(r.below(6)), total = 0;
        vector<int> w;
        vector<unsigned long long> v;
        for (int i = 0; i < n; ++i) {
            w.push_back(1 + static_cast<int>(r.below(12)));
            v.push_back(r.below(P10[w.back()]));
            total += w.back();
        }
        size_t bytes = static_cast<size_t>(total + 1) / 2;
        std::unique_ptr<char[]> b(new char[bytes]);
        memset(b.get(), static_cast<int>(r.u64() & 0xff), bytes);
        char* p = b.get();
        int pos = 0;
        string spelled;
        for (int i = 0; i < n; ++i) {
            sedaman::to_bcd<uint64_t>(&p, v[static_cast<size_t>(i)], pos & 1, w[static_cast<size_t>(i)]);
            pos += w[static_cast<size_t>(i)];
            spelled += fmt("%0*llu", w[static_cast<size_t>(i)], v[static_cast<size_t>(i)]);
        }
        auto u = reinterpret_cast<unsigned char*>(b.get());
        for (int d = 0; d < total; ++d)
            MON_CHECK(nib(u, static_cast<size_t>(d)) == spelled[static_cast<size_t>(d)] - '0', "packed/digit", "packing %s: digit %d is %x", spelled.c_str(), d, nib(u, static_cast<size_t>(d)));
        char const* q = b.get();
        pos = 0;
        for (int i = 0; i < n; ++i) {
            auto g = sedaman::from_bcd<uint64_t>(&q, pos & 1, w[static_cast<size_t>(i)]);
            MON_CHECK(g == v[static_cast<size_t>(i)], "packed/decode", "unpacking %s: field %d is %llu", spelled.c_str(), i, static_cast<unsigned long long>(g));
            pos += w[static_cast<size_t>(i)];
        }
        c.count("packed_digits", static_cast<uint64_t>(total));
        c.nontrivial(hash_str(spelled));
        c.sample("packed", spelled);
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C12", c12 } }); }
