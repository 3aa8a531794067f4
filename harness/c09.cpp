// C09 monitor: hostile SEG-Y bytes.  The sanitizers watch memory and undefined
// behaviour; this file adds a progress monitor (every successful read must
// consume file bytes) and an exception-type monitor.
#include "segy_ref.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static uint64_t odd_value(Rng& r, int bytes)
{
    static int64_t v[] = { 0, 1, -1, -2, 2, 3, 4, 7, 127, 128, 255, 256, 32767, 32768, -32768, 65535, 65536, 0x7fffffff, 0x80000000LL, 0xffffffffLL,
        0x7fffffffffffffffLL, INT64_MIN, 3200, 3600, 240, 0x00ffffff, 0x01000000, 1LL << 40, 1LL << 60, 8947848, 17895697 };
    if (r.chance(1, 3))
        return any_bits(r, bytes);
    return static_cast<uint64_t>(v[r.below(sizeof v / sizeof *v)]);
}

static string mutate(Rng& r, File const& f, string b, string& what)
{
    int n = static_cast<int>(r.range(1, 4));
    for (int k = 0; k < n; ++k)
        switch (r.below(9)) {
        case 0: { // truncate
            size_t at = r.chance(1, 2) ? r.below(b.size() + 1) : b.size() - std::min<size_t>(b.size(), r.below(600));
            b.resize(at);
            what += fmt(" cut@%zu", at);
            break;
        }
        case 1: { // random garbage somewhere
            if (b.empty())
                break;
            size_t at = r.below(b.size()), len = std::min<size_t>(b.size() - at, r.below(40) + 1);
            for (size_t i = 0; i < len; ++i)
                b[at + i] = static_cast<char>(r.u64());
            what += fmt(" garbage@%zu+%zu", at, len);
            break;
        }
        case 2:
        case 3:
        case 4: { // a steering field of the binary header
            static char const* names[] = { "samp_per_tr", "format_code", "ext_samp_per_tr", "SEGY_rev_major_ver", "fixed_tr_length", "ext_text_headers_num",
                "max_num_add_tr_headers", "num_of_tr_in_file", "byte_off_of_first_tr", "num_of_trailer_stanza" };
            char const* nm = names[r.below(10)];
            for (auto& x : bin_fields())
                if (!strcmp(x.name, nm) && b.size() >= 3600) {
                    uint64_t v = odd_value(r, x.size);
                    put(&b[static_cast<size_t>(3200 + x.off)], x.size, v, f.le);
                    what += fmt(" %s=%#llx", nm, static_cast<unsigned long long>(v));
                }
            break;
        }
        case 5: { // sample counts and header counts inside traces
            size_t base = f.first_trace();
            if (f.tr.empty() || base + 240 > b.size())
                break;
            size_t t = r.below(f.tr.size()), off = base;
            for (size_t i = 0; i < t; ++i)
                off += 240 * f.tr[i].hdr.size() + f.tr[i].samp.size();
            size_t which = r.below(3);
            size_t o = off + (which == 0 ? 114 : which == 1 ? 240 + 136 : 240 + 156);
            int sz = which == 1 ? 4 : 2;
            if (o + static_cast<size_t>(sz) <= b.size()) {
                uint64_t v = odd_value(r, sz);
                put(&b[o], sz, v, f.le);
                what += fmt(" trace%zu.%zu=%#llx", t, which, static_cast<unsigned long long>(v));
            }
            break;
        }
        case 6: // byte-order constant
            if (b.size() >= 3600)
                put(&b[3296], 4, r.chance(1, 2) ? r.u64() : (r.chance(1, 2) ? 0x01020304 : 0x04030201), true);
            what += " endian";
            break;
        case 7: // append bytes
            b += r.bytes(r.below(400));
            what += " append";
            break;
        case 8: // header only or less, or pure noise
            if (r.chance(1, 4)) {
                b = r.bytes(r.below(5000));
                what += " noise";
            } else {
                b.resize(std::min(b.size(), static_cast<size_t>(3600 + r.below(3) * 120)));
                what += " stub";
            }
            break;
        }
    return b;
}

static void c09(Ctx& c)
{
    c.case_budget = 30000000;
    c.cases("hostile-bytes", c.scaled(6000, 150000), [&](Rng& r, uint64_t) {
        GenOpt o;
        o.max_ns = 12;
        o.max_traces = 5;
        o.big_ns_den = 0;
        if (r.chance(1, 2))
            o.rev = 2;
        File f = gen_file(r, o);
        string what, b = mutate(r, f, f.bytes(), what);
        int mode = static_cast<int>(r.below(4)); // 0,1 plain 2 override 3 sorted
        string p = c.path("c09.sgy");
        write_file(p, b);
        Map m = f.map;
        if (r.chance(1, 12))
            m.clear();
        string tag = fmt("mode %d size %zu%s | ", mode, b.size(), what.c_str()) + f.describe();
        c.note(tag);
        BH ov = f.bh;
        if (mode == 2)
            for (int k = static_cast<int>(r.below(3)); k; --k) {
                auto& x = bin_fields()[r.below(bin_fields().size())];
                x.set(ov, odd_value(r, x.size));
            }
        // each trace occupies at least its 240-byte header
        uint64_t limit = b.size() / 240 + 2, got = 0, excs = 0;
        bool built = false;
        try {
            std::unique_ptr<ISEGY> in;
            if (mode <= 1)
                in = std::make_unique<ISEGY>(p, m);
            else if (mode == 2)
                in = std::make_unique<ISEGY>(p, ov, m);
            else {
                string key = "CHAN";
                if (!m.empty() && !m[0].second.empty())
                    key = m[0].second.begin()->second.first;
                auto s = std::make_unique<ISEGYSorted1D>(p, key, m);
                for (auto& k : s->get_keys()) {
                    auto hs = s->get_headers(k, 3);
                    c.count("sorted_lookups", hs.size());
                    try {
                        s->get_traces(k, 2);
                    } catch (std::exception const&) {
                        ++excs;
                    }
                }
                in = std::move(s);
            }
            built = true;
            // whatever the mapping says, reading may fail but must not stand still
            for (int tries = 0; tries < 3; ++tries) {
                try {
                    while (in->has_trace()) {
                        if (r.chance(1, 2))
                            in->read_header();
                        else
                            in->read_trace();
                        MON_CHECK(++got <= limit, "progress/more-traces-than-bytes", "%s: %llu traces from %zu bytes", tag.c_str(), static_cast<unsigned long long>(got), b.size());
                    }
                    bool threw = false;
                    try {
                        in->read_trace();
                    } catch (std::exception const&) {
                        threw = true;
                    }
                    MON_CHECK(threw, "progress/read-behind-end", "%s: a trace was read behind the end of the data", tag.c_str());
                    break;
                } catch (std::exception const& e) {
                    if (dynamic_cast<Fail const*>(&e))
                        throw;
                    ++excs;
                }
            }
            in->text_headers();
            in->trailer_stanzas();
            in->binary_header();
        } catch (Fail const&) {
            throw;
        } catch (std::exception const&) {
            ++excs;
        }
        c.count(built ? "opened" : "refused_at_open");
        c.count("exceptions", excs);
        c.count("traces_read", got);
        c.nontrivial(content_sig(b) ^ static_cast<uint64_t>(mode));
        c.sample(built ? "opened" : "refused", tag);
    });
    // every prefix of one small file of each kind
    c.cases("every-prefix", 6, [&](Rng& r, uint64_t i) {
        GenOpt o;
        o.rev = static_cast<int>(i % 3);
        o.max_ns = 4;
        o.max_traces = 3;
        o.big_ns_den = 0;
        File f;
        do
            f = gen_file(r, o);
        while (f.tr.empty());
        string b = f.bytes(), p = c.path("c09p.sgy");
        size_t step = c.thorough ? 1 : 1 + b.size() / 900;
        for (size_t n = b.size(); n != SIZE_MAX && n <= b.size(); n -= (n < step && n ? n : (n == 0 ? 1 : step))) {
            write_file(p, b.substr(0, n));
            c.note(fmt("prefix %zu of ", n) + f.describe());
            try {
                ISEGY in(p, f.map);
                size_t k = 0;
                while (in.has_trace() && k < 20) {
                    in.read_trace();
                    ++k;
                }
                MON_CHECK(k <= f.tr.size() || n < b.size(), "prefix/extra", "more traces than written");
                c.count("prefixes_readable");
            } catch (Fail const&) {
                throw;
            } catch (std::exception const&) {
                c.count("prefixes_refused");
            }
            if (n == 0)
                break;
        }
        c.nontrivial(content_sig(b));
    });
    c.cases("no-such-file", 3, [&](Rng&, uint64_t i) {
        bool threw = false;
        try {
            if (i == 0)
                ISEGY in(c.path("does-not-exist.sgy"));
            else if (i == 1)
                ISEGYSorted1D in(c.path("does-not-exist.sgy"), "CHAN");
            else
                ISEGY::read_binary_header(c.path("does-not-exist.sgy"));
        } catch (std::exception const&) {
            threw = true;
        }
        MON_CHECK(threw, "open/missing-accepted", "opening a file that does not exist succeeded");
        c.count("missing_files_refused");
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C09", c09 } }); }
