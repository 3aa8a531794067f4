// C19 monitor: hostile SEG-D bytes.  The sanitizers watch memory and undefined
// behaviour; this file adds a progress monitor (records and traces must consume
// the file) and an exception-type monitor.
#include "segd_ref.hpp"
using namespace dref;
using sedaman::Trace;

static uint64_t odd(Rng& r, int bytes)
{
    static uint64_t v[] = { 0, 1, 2, 3, 4, 0x0f, 0x10, 0x7f, 0x80, 0x99, 0x9a, 0xa0, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x9999, 0x8015, 0x8022, 0x8024, 0x8036, 0x8058,
        0x9080, 0x7fffff, 0x800000, 0xffffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000000, 0x40000000, 0x1fffffff, 0x20000000, UINT64_MAX };
    return r.chance(1, 3) ? any_bits(r, bytes) : v[r.below(sizeof v / sizeof *v)];
}
static void poke(Rng& r, string& b, size_t off, int n, string& what, char const* name)
{
    if (off + static_cast<size_t>(n) > b.size())
        return;
    uint64_t v = odd(r, n);
    pb(b, static_cast<int>(off), n, v);
    what += fmt(" %s=%#llx", name, static_cast<unsigned long long>(v));
}
static string mutate(Rng& r, DFile const& f, string b, string& what)
{
    // where the pieces of the records lie
    std::vector<size_t> rec, csh, trc, smp;
    std::vector<int> trev;
    size_t p = 0;
    for (auto& x : f.rec) {
        rec.push_back(p);
        size_t q = p + 32 + x.gh2.size() + x.gh3.size() + 32 * x.blk.size();
        for (size_t i = 0; i < x.cs.size(); ++i) {
            for (auto& s : x.cs[i]) {
                csh.push_back(q);
                q += s.size();
            }
            q += x.skew[i].size();
        }
        q = p + x.head().size();
        for (auto& t : x.tr) {
            trc.push_back(q);
            trev.push_back(x.rev);
            q += 20 + 32 * t.ext.size();
            smp.push_back(q);
            q += t.samp.size();
        }
        p = q + x.trailer.size();
    }
    int n = static_cast<int>(r.range(1, 4));
    for (int k = 0; k < n; ++k)
        switch (r.below(12)) {
        case 0: {
            size_t at = r.chance(1, 2) ? r.below(b.size() + 1) : b.size() - std::min<size_t>(b.size(), r.below(300));
            b.resize(at);
            what += fmt(" cut@%zu", at);
            break;
        }
        case 1: {
            if (b.empty())
                break;
            size_t at = r.below(b.size()), len = std::min<size_t>(b.size() - at, r.below(40) + 1);
            for (size_t i = 0; i < len; ++i)
                b[at + i] = static_cast<char>(r.u64());
            what += fmt(" garbage@%zu+%zu", at, len);
            break;
        }
        case 2:
        case 3:
        case 4: { // general header 1: format and counts
            size_t o = rec[r.below(rec.size())];
            static struct { int off, n; } const w[] = { { 2, 2 }, { 11, 1 }, { 22, 1 }, { 23, 1 }, { 24, 1 }, { 25, 2 }, { 27, 1 }, { 28, 1 }, { 29, 1 }, { 30, 1 }, { 31, 1 }, { 0, 2 } };
            auto& s = w[r.below(sizeof w / sizeof *w)];
            poke(r, b, o + static_cast<size_t>(s.off), s.n, what, fmt("gh1[%d]", s.off).c_str());
            break;
        }
        case 5:
        case 6: { // general header 2: extended counts, revision, trailer
            size_t o = rec[r.below(rec.size())] + 32;
            static struct { int off, n; } const w[] = { { 3, 2 }, { 5, 2 }, { 5, 3 }, { 7, 2 }, { 8, 2 }, { 10, 1 }, { 11, 1 }, { 12, 2 }, { 12, 4 }, { 16, 4 }, { 22, 2 }, { 27, 3 } };
            auto& s = w[r.below(sizeof w / sizeof *w)];
            poke(r, b, o + static_cast<size_t>(s.off), s.n, what, fmt("gh2[%d]", s.off).c_str());
            // make the escape that leads there likely
            if (r.chance(1, 2) && o < b.size()) {
                static int const e[] = { 28, 29, 30, 31 };
                b[o - 32 + static_cast<size_t>(e[r.below(4)])] = '\xff';
                what += " escape";
            }
            break;
        }
        case 7: { // a channel set
            if (csh.empty())
                break;
            size_t o = csh[r.below(csh.size())];
            static struct { int off, n; } const w[] = { { 1, 1 }, { 6, 2 }, { 8, 2 }, { 8, 1 }, { 11, 1 }, { 12, 4 }, { 16, 4 }, { 20, 3 }, { 26, 2 }, { 27, 1 }, { 28, 1 } };
            auto& s = w[r.below(sizeof w / sizeof *w)];
            poke(r, b, o + static_cast<size_t>(s.off), s.n, what, fmt("cs[%d]", s.off).c_str());
            break;
        }
        case 8:
        case 9: { // a trace: channel set, number of extensions, number of samples
            if (trc.empty())
                break;
            size_t t = r.below(trc.size());
            static struct { int off, n; } const w[] = { { 2, 1 }, { 3, 1 }, { 9, 1 }, { 15, 2 }, { 27, 3 }, { 44, 4 }, { 0, 2 }, { 4, 2 } };
            auto& s = w[r.below(sizeof w / sizeof *w)];
            poke(r, b, trc[t] + static_cast<size_t>(s.off), s.n, what, fmt("trace%zu[%d]", t, s.off).c_str());
            break;
        }
        case 10:
            b += r.bytes(r.below(400));
            what += " append";
            break;
        case 11:
            if (r.chance(1, 4)) {
                b = r.bytes(r.below(3000));
                if (b.size() > 12 && r.chance(2, 3)) { // enough sense to get further
                    set_bcd(b, 4, 4, dformats()[r.below(dformats().size())].code);
                    b[11] = static_cast<char>(r.below(4) << 4);
                }
                what += " noise";
            } else if (b.size() > 64) { // a piece removed or repeated
                size_t at = r.below(b.size()), len = std::min<size_t>(b.size() - at, r.below(100) + 1);
                if (r.chance(1, 2))
                    b.erase(at, len);
                else
                    b.insert(at, b.substr(at, len));
                what += fmt(" shift@%zu", at);
            }
            break;
        }
    return b;
}

static void c19(Ctx& c)
{
    c.case_budget = 30000000;
    auto drive = [&](Rng& r, string const& b, ExtMaps const& m, string const& tag) {
        string p = c.path("c19.segd");
        write_file(p, b);
        c.note(tag);
        // every trace occupies its 20 byte header, every record 32 bytes
        uint64_t limit = b.size() / 20 + 2, got = 0, excs = 0, recs = 0;
        bool built = false;
        try {
            ISEGD in(p, m);
            built = true;
            for (int tries = 0; tries < 3; ++tries) {
                try {
                    if (!tries && r.chance(1, 2)) { // not after a reported problem
                        while (in.has_record()) {
                            MON_CHECK(++recs <= limit, "progress/more-records-than-bytes", "%s: %llu records from %zu bytes", tag.c_str(), static_cast<unsigned long long>(recs), b.size());
                            while (in.has_trace()) {
                                in.read_trace();
                                MON_CHECK(++got <= limit, "progress/more-traces-than-bytes", "%s: %llu traces from %zu bytes", tag.c_str(), static_cast<unsigned long long>(got), b.size());
                                in.general_header2();
                            }
                        }
                    } else
                        while (in.has_record()) {
                            in.read_trace();
                            MON_CHECK(++got <= limit, "progress/more-traces-than-bytes", "%s: %llu traces from %zu bytes", tag.c_str(), static_cast<unsigned long long>(got), b.size());
                        }
                    // one too many: has to be refused
                    bool threw = false;
                    try {
                        in.read_trace();
                    } catch (std::exception const&) {
                        threw = true;
                    }
                    MON_CHECK(threw, "progress/read-behind-end", "%s: a trace was read behind the end of the file", tag.c_str());
                    c.count("finished");
                    break;
                } catch (Fail const&) {
                    throw;
                } catch (std::exception const&) {
                    ++excs;
                }
            }
            in.general_header();
            in.general_header2();
            in.general_header3();
            in.general_headerN();
            in.general_header_vibrator_info();
            in.general_header_coord_ref_blk();
            in.general_header_measurement_blk();
            in.extended_headers();
            in.external_headers();
            for (auto& s : in.channel_set_headers())
                c.count("channel_sets_seen", s.size());
        } catch (Fail const&) {
            throw;
        } catch (std::exception const&) {
            ++excs;
        }
        c.count(built ? "opened" : "refused_at_open");
        c.count("exceptions", excs);
        c.count("traces_read", got);
        c.nontrivial(b);
        c.sample(built ? "opened" : "refused", tag);
    };
    c.cases("hostile-bytes", c.scaled(6000, 150000), [&](Rng& r, uint64_t) {
        DGen o;
        o.maps = r.chance(1, 2);
        o.max_ns = 12;
        o.max_ch = 3;
        o.empties = r.chance(1, 4);
        DFile f = gen_dfile(r, o);
        string what, b = mutate(r, f, f.bytes(), what);
        ExtMaps m = f.maps;
        if (r.chance(1, 8))
            m = r.chance(1, 2) ? ExtMaps {} : rnd_ext_maps(r, static_cast<int>(r.range(1, 6)), r.chance(1, 2), false);
        drive(r, b, m, fmt("size %zu%s | ", b.size(), what.c_str()) + rec_desc(f.rec[0]) + fmt(" %zu maps", m.size()));
    });
    c.cases("every-prefix", 8, [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = static_cast<int>(i % 4);
        o.max_ns = 4;
        o.max_ch = 2;
        o.nrec = 2;
        DFile f;
        do
            f = gen_dfile(r, o);
        while (f.bytes().size() > 6000);
        string b = f.bytes();
        size_t step = c.thorough ? 1 : 1 + b.size() / 700;
        for (size_t n = 0; n < b.size(); n += step) {
            drive(r, b.substr(0, n), f.maps, fmt("prefix %zu of ", n) + rec_desc(f.rec[0]));
            c.count("prefixes");
        }
    });
    c.cases("no-such-file", 1, [&](Rng&, uint64_t) {
        bool threw = false;
        try {
            ISEGD in(c.path("does-not-exist.segd"));
        } catch (std::exception const&) {
            threw = true;
        }
        MON_CHECK(threw, "open/missing-accepted", "opening a file that does not exist succeeded");
        c.count("missing_files_refused");
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C19", c19 } }); }
