// C25: no leaks of memory or descriptors over any life of any object, and
// iterating over traces needs memory for one trace, not for the traces seen
#include "segd_ref.hpp"
#include "OSEGDRev2_1.hpp"
#include "ISEGYSorted1D.hpp"
#include "Exception.hpp"
#include <dirent.h>
using namespace dref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static int open_fds()
{
    int n = 0;
    DIR* d = ::opendir("/proc/self/fd");
    while (d && ::readdir(d))
        ++n;
    if (d)
        ::closedir(d);
    return n;
}
struct Usage {
    long long bytes, blocks;
    int fds;
};
static Usage usage()
{
    int f = open_fds();
    return { mon::alloc_live.load(), mon::alloc_live_n.load(), f };
}
static string damage(Rng& r, string b)
{
    for (uint64_t k = r.range(1, 4); k && !b.empty(); --k)
        switch (r.below(3)) {
        case 0: b.resize(r.below(b.size()) + 1); break;
        case 1: b[r.below(b.size())] = static_cast<char>(r.u64()); break;
        default: b[r.below(std::min<size_t>(b.size(), 4000))] = static_cast<char>(r.u64()); break;
        }
    return b;
}
using Session = std::function<void()>;

// sessions do the same every time they are called
static Session make_session(Ctx& c, Rng& r, string& kind)
{
    uint64_t seed = r.u64();
    string p = c.path("c25.in"), q = c.path("c25.out");
    bool dmg = r.chance(1, 3);
    switch (r.below(9)) {
    case 0: { // plain reading
        GenOpt o;
        o.max_ns = 40;
        auto f = std::make_shared<File>(gen_file(r, o));
        write_file(p, dmg ? damage(r, f->bytes()) : f->bytes());
        kind = dmg ? "segy-read-damaged" : "segy-read";
        size_t stop = r.chance(1, 3) ? r.below(5) : 1000;
        return [=] {
            Rng q2(seed);
            ISEGY in(p, f->map);
            for (size_t n = 0; n < stop && in.has_trace(); ++n)
                if (q2.chance(1, 2))
                    in.read_header();
                else
                    in.read_trace();
        };
    }
    case 1: { // sorted reading
        GenOpt o;
        o.max_ns = 10;
        auto f = std::make_shared<File>(gen_file(r, o));
        write_file(p, dmg ? damage(r, f->bytes()) : f->bytes());
        string key = f->map[0].second.empty() || r.chance(1, 10) ? string("NONE") : f->map[0].second.begin()->second.first;
        kind = dmg ? "segy-sorted-damaged" : "segy-sorted";
        return [=] {
            ISEGYSorted1D in(p, key, f->map);
            auto ks = in.get_keys();
            for (auto& k : ks) {
                in.get_headers(k);
                in.get_traces(k, 2);
            }
            while (in.has_trace())
                in.read_trace();
        };
    }
    case 2: { // binary header alone, nonsense arguments
        GenOpt o;
        auto f = std::make_shared<File>(gen_file(r, o));
        write_file(p, f->bytes());
        int what = static_cast<int>(r.below(4));
        kind = "segy-open-refused";
        return [=] {
            switch (what) {
            case 0: ISEGY::read_binary_header(p); break;
            case 1: ISEGY(p + ".missing", f->map); break;
            case 2: {
                Map m = f->map;
                m.push_back({ "short", {} });
                ISEGY in(p, m);
                break;
            }
            default: {
                BH bh = f->bh;
                bh.format_code = 77;
                ISEGY in(p, bh, f->map);
            }
            }
        };
    }
    case 3:
    case 4: { // writing, with refused traces and bad arguments
        int rev = static_cast<int>(r.below(3));
        bool zero = r.chance(1, 3), bad = r.chance(1, 4), var = rev && r.chance(1, 2);
        BH bh {};
        if (!zero) {
            bh.format_code = static_cast<int16_t>(formats()[r.below(13)].code);
            bh.samp_per_tr = 7;
            bh.samp_int = 1000;
            bh.fixed_tr_length = !var;
        }
        std::vector<string> text, trl;
        if (r.chance(1, 2))
            text.push_back(text_block(r, false));
        if (rev && !zero && r.chance(1, 2))
            text.push_back(text_block(r, false));
        if (rev == 2 && !zero && r.chance(1, 2))
            trl.push_back(text_block(r, false));
        if (bad)
            switch (r.below(4)) {
            case 0: bh.format_code = 55; break;
            case 1: text.push_back("too short"); break;
            case 2: bh.endianness = 99; break;
            default: trl.push_back("x"); break;
            }
        kind = fmt("segy-write-rev%d%s", rev, bad ? "-refused" : "");
        return [=] {
            Rng q2(seed);
            auto out = make_writer(rev, q, text, bh, trl, CommonSEGY::default_trace_header);
            for (int k = 0; k < 8; ++k) {
                HV h;
                size_t n = q2.chance(1, 4) ? static_cast<size_t>(q2.below(20)) : 7;
                if (!q2.chance(1, 5))
                    h["SAMP_NUM"] = static_cast<int64_t>(n);
                h["SAMP_INT"] = int64_t(500);
                Trace t(h, std::vector<double>(n, 1.5));
                try {
                    out->write_trace(t);
                } catch (std::exception const&) {
                }
            }
        };
    }
    case 5:
    case 6: { // SEG-D reading
        DGen o;
        o.max_ns = 30;
        o.maps = r.chance(1, 2);
        o.empties = true;
        auto f = std::make_shared<DFile>(gen_dfile(r, o));
        write_file(p, dmg ? damage(r, f->bytes()) : f->bytes());
        kind = dmg ? "segd-read-damaged" : "segd-read";
        return [=] {
            ISEGD in(p, f->maps);
            while (in.has_record() && in.has_trace()) {
                in.read_trace();
                in.channel_set_headers();
            }
        };
    }
    case 7: { // SEG-D writing
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        o.int_descale = true;
        o.maps = r.chance(1, 2);
        auto f = std::make_shared<DFile>(gen_dfile(r, o));
        write_file(p, f->bytes());
        bool bad = r.chance(1, 3);
        kind = bad ? "segd-write-refused" : "segd-write";
        return [=] {
            ISEGD in(p, f->maps);
            std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>> add;
            for (auto& n : in.general_headerN())
                add.push_back(std::make_shared<CS::GeneralHeaderN>(n));
            auto gh = in.general_header();
            if (bad)
                gh.format_code = 1234;
            sedaman::OSEGDRev2_1 out(q, gh, *in.general_header2(), in.channel_set_headers(), add, in.extended_headers(), in.external_headers(), f->maps);
            while (in.has_trace()) {
                Trace t = in.read_trace();
                out.write_trace(t);
                try {
                    Trace u = t;
                    u.header().set("CH_SET_NUM", int64_t(60000));
                    out.write_trace(u);
                } catch (std::exception const&) {
                }
            }
        };
    }
    default: { // values
        kind = "values";
        return [=] {
            Rng q2(seed);
            std::vector<Trace> v;
            for (int k = 0; k < 12; ++k) {
                HV h;
                for (uint64_t n = q2.below(6); n; --n)
                    h["K" + std::to_string(q2.below(9))] = static_cast<int64_t>(n);
                Trace t(h, std::vector<double>(q2.below(50), 2.0));
                t.header().set("NEW", 2.5);
                v.push_back(t);
                Trace u = v[q2.below(v.size())];
                v[q2.below(v.size())] = u;
                v[q2.below(v.size())] = std::move(u);
            }
            try {
                throw sedaman::Exception("file", 3, "text of an exception which is longer than a short string");
            } catch (sedaman::Exception& e) {
                sedaman::Exception e2 = e, e3 = std::move(e);
            }
        };
    }
    }
}

static void c25(Ctx& c)
{
    c.cases("lives", c.scaled(1200, 20000), [&](Rng& r, uint64_t) {
        string kind;
        Session s = make_session(c, r, kind);
        c.note(kind);
        int threw = 0;
        auto once = [&] {
            try {
                s();
            } catch (std::exception const&) {
                ++threw;
            }
        };
        // what is set up once, or kept for the largest use so far, settles
        for (int k = 0; k < 3; ++k)
            once();
        Usage a = usage();
        int const more = 6;
        for (int k = 0; k < more; ++k)
            once();
        Usage b = usage();
        MON_CHECK(b.fds == a.fds, ("lives/descriptors/" + kind).c_str(), "%s: %d descriptors open after the session, %d before", kind.c_str(), b.fds, a.fds);
        MON_CHECK(b.blocks <= a.blocks && b.bytes <= a.bytes, ("lives/memory/" + kind).c_str(), "%s: %d more sessions left %lld more blocks (%lld bytes) behind", kind.c_str(), more, b.blocks - a.blocks,
            b.bytes - a.bytes);
        c.count("lives:" + kind, more);
        if (threw)
            c.count("lives_ended_by_exception:" + kind);
        c.nontrivial(kind + std::to_string(r.u64()));
        c.sample(kind, fmt("%s: %d sessions, %lld bytes in %lld blocks and %d descriptors before and after", kind.c_str(), more, a.bytes, a.blocks, a.fds));
    });
    // the sorted reader needs memory for its index when it is opened, but not more later
    auto flat = [&](string const& kind, size_t n, std::function<bool(size_t)> const& step) {
        long long first = 0, second = 0;
        size_t k = 0;
        for (; k < n && step(k); ++k) {
            long long now = mon::alloc_live.load();
            (k < n / 2 ? first : second) = std::max(k < n / 2 ? first : second, now);
        }
        MON_CHECK(k == n, ("growth/ended/" + kind).c_str(), "%s: %zu of %zu traces", kind.c_str(), k, n);
        MON_CHECK(second <= first + 512, ("growth/" + kind).c_str(), "%s: %lld more bytes in use during the second half of %zu traces than during the first", kind.c_str(), second - first, n);
        c.count("growth_watched:" + kind);
        c.count("growth_steps", n);
        c.sample("growth", fmt("%s: %zu traces, at most %lld bytes in the first half, %lld in the second", kind.c_str(), n, first, second));
    };
    // what is asked for but not there, and what is refused, leaves nothing behind either
    c.cases("growth-refused", c.scaled(40, 800), [&](Rng& r, uint64_t i) {
        string p = c.path("c25.in"), q = c.path("c25.out");
        size_t const n = 600;
        GenOpt o;
        o.min_traces = o.max_traces = 3;
        o.max_ns = 6;
        o.many_den = o.big_ns_den = 0;
        o.canonical = true;
        o.rev = static_cast<int>(r.below(3));
        if (o.rev == 0)
            o.allow_text = false;
        File f = gen_file(r, o);
        write_file(p, f.bytes());
        c.note(f.describe());
        if (i % 4 == 0) { // names which no header has
            Trace t(HV { { "A", Value(int64_t(1)) }, { "B", Value(2.5) } }, { 1, 2, 3 });
            flat("trace-lookup", n, [&](size_t k) {
                string name = "N" + std::to_string(k);
                auto v = t.header().get(name);
                t.header().set("A", Value(static_cast<int64_t>(k)));
                return !v;
            });
        } else if (i % 4 == 1) { // reading on behind the last trace
            ISEGY in(p, f.map);
            while (in.has_trace())
                in.read_trace();
            flat("segy-read-on", n, [&](size_t k) {
                try {
                    if (k % 2)
                        in.read_trace();
                    else
                        in.read_header();
                } catch (std::exception const&) {
                    return true;
                }
                return true;
            });
        } else if (i % 4 == 2) { // traces which are refused
            ISEGY in(p, f.map);
            Map m(f.map.begin(), f.map.begin() + std::min<long>(static_cast<long>(f.map.size()), f.nadd ? f.nadd + 1 : static_cast<long>(f.map.size())));
            auto out = make_writer(o.rev, q, in.text_headers(), in.binary_header(), in.trailer_stanzas(), m);
            size_t refused = 0;
            flat(fmt("segy-refused-rev%d", o.rev), n, [&](size_t) {
                Trace t(HV { { "SAMP_NUM", Value(int64_t(99)) } }, std::vector<double>(98, 1));
                try {
                    out->write_trace(t);
                } catch (std::exception const&) {
                    ++refused;
                }
                return true;
            });
            c.count("growth_traces_refused", refused);
        } else {
            DGen d;
            d.nrec = 1;
            d.max_ns = 6;
            d.max_ch = 3;
            DFile df = gen_dfile(r, d);
            write_file(p, df.bytes());
            ISEGD in(p, df.maps);
            while (in.has_trace())
                in.read_trace();
            flat("segd-read-on", n, [&](size_t) {
                try {
                    in.read_trace();
                } catch (std::exception const&) {
                    return true;
                }
                return true;
            });
        }
        c.nontrivial(fmt("refused %d ", static_cast<int>(i % 4)) + std::to_string(r.u64()));
    });
    c.cases("growth", c.scaled(60, 1200), [&](Rng& r, uint64_t i) {
        string p = c.path("c25.in"), q = c.path("c25.out");
        size_t const n = 600;
        if (i % 5 < 3) {
            GenOpt o;
            o.min_traces = o.max_traces = static_cast<int>(n);
            o.max_ns = 6;
            o.many_den = o.big_ns_den = 0;
            o.canonical = i % 5 == 2;
            if (o.canonical)
                o.rev = static_cast<int>(r.below(3));
            if (o.rev == 0)
                o.allow_text = false;
            File f = gen_file(r, o);
            size_t const small = 8; // the same lengths in both halves
            for (size_t k = small; k < n; ++k)
                f.tr[k] = f.tr[k % small];
            write_file(p, f.bytes());
            string tag = f.describe();
            c.note(tag);
            if (i % 5 == 0) {
                ISEGY in(p, f.map);
                Rng q2(r.u64());
                flat("segy-read", n, [&](size_t) {
                    if (!in.has_trace())
                        return false;
                    if (q2.chance(1, 2))
                        in.read_header();
                    else
                        in.read_trace();
                    return true;
                });
            } else if (i % 5 == 1) {
                if (f.map[0].second.empty())
                    return;
                ISEGYSorted1D in(p, f.map[0].second.begin()->second.first, f.map);
                auto ks = in.get_keys();
                Rng q2(r.u64());
                int what = static_cast<int>(q2.below(4)), absent = 0;
                flat("segy-sorted", n, [&](size_t k) {
                    if (!in.has_trace())
                        return false;
                    in.read_trace();
                    // values which do and do not occur, never the same one twice
                    Value v = k % 2 ? ks[k % ks.size()] : q2.chance(1, 2) ? Value(static_cast<int64_t>(q2.u64())) : Value(static_cast<double>(q2.below(1u << 30)) + 0.3);
                    if (k % 2 == 0)
                        ++absent;
                    if (what != 1)
                        in.get_headers(v, 2);
                    if (what != 2)
                        in.get_traces(v, 2);
                    if (what == 3)
                        in.get_keys();
                    return true;
                });
                c.count("absent_values_looked_up", static_cast<uint64_t>(absent));
            } else {
                ISEGY in(p, f.map);
                Map m(f.map.begin(), f.map.begin() + std::min<long>(static_cast<long>(f.map.size()), f.nadd ? f.nadd + 1 : static_cast<long>(f.map.size())));
                auto out = make_writer(o.rev, q, in.text_headers(), in.binary_header(), in.trailer_stanzas(), m);
                flat(fmt("segy-copy-rev%d", o.rev), n, [&](size_t) {
                    if (!in.has_trace())
                        return false;
                    Trace t = in.read_trace();
                    out->write_trace(t);
                    t = Trace(HV(), {});
                    return true;
                });
            }
            c.nontrivial(tag);
            return;
        }
        if (i % 5 == 3) { // records
            DGen o;
            o.nrec = 1;
            o.max_ns = 6;
            o.max_ch = 3;
            o.maps = r.chance(1, 2);
            DFile f = gen_dfile(r, o);
            if (f.rec[0].tr.empty())
                return;
            size_t per = f.rec[0].tr.size(), recs = 60;
            while (f.rec.size() < recs)
                f.rec.push_back(f.rec[0]);
            write_file(p, f.bytes());
            c.note(rec_desc(f.rec[0]));
            ISEGD in(p, f.maps);
            flat("segd-read", per * recs, [&](size_t) {
                if (!in.has_trace())
                    return false;
                in.read_trace();
                return true;
            });
            c.nontrivial(rec_desc(f.rec[0]) + std::to_string(per));
            return;
        }
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        o.int_descale = true;
        o.max_ns = 6;
        o.max_ch = 900;
        o.maps = r.chance(1, 2);
        DFile f = gen_dfile(r, o);
        Rec const& x = f.rec[0];
        write_file(p, f.bytes());
        c.note(rec_desc(x));
        ISEGD in(p, f.maps);
        std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>> add;
        for (auto& k : in.general_headerN())
            add.push_back(std::make_shared<CS::GeneralHeaderN>(k));
        sedaman::OSEGDRev2_1 out(q, in.general_header(), *in.general_header2(), in.channel_set_headers(), add, in.extended_headers(), in.external_headers(), f.maps);
        if (x.tr.size() < 200)
            return;
        flat("segd-copy", x.tr.size(), [&](size_t) {
            if (!in.has_trace())
                return false;
            Trace t = in.read_trace();
            out.write_trace(t);
            t = Trace(HV(), {});
            return true;
        });
        c.nontrivial(rec_desc(x));
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C25", c25 } }); }
