// C27: files that end early and writers that never finish. Complete traces are
// returned as they were stored, the incomplete one is reported by an exception
#include "segd_ref.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGDRev2_1.hpp"
using namespace dref;
using sedaman::ISEGYSorted1D;

template <class F> static bool throws(F f)
{
    try {
        f();
    } catch (Fail const&) {
        throw;
    } catch (std::exception const&) {
        return true;
    }
    return false;
}
// offsets of the beginnings of the traces, and of the end of the last one
static std::vector<size_t> bounds(sref::File const& f)
{
    std::vector<size_t> v { f.first_trace() };
    for (auto& t : f.tr)
        v.push_back(v.back() + t.hdr.size() * 240 + t.samp.size());
    return v;
}
// reads a SEG-Y file of n bytes that was to become f
static void segy_prefix(Ctx& c, Rng& r, sref::File const& f, std::vector<size_t> const& at, string const& p, size_t n, string const& tag)
{
    string w = tag + fmt(", %zu bytes present: ", n) + f.describe();
    std::unique_ptr<sedaman::ISEGY> in;
    bool refused = throws([&] { in = std::make_unique<sedaman::ISEGY>(p, f.map); });
    if (n < at[0]) {
        // no trace can be there
        if (!refused) {
            MON_CHECK(!in->has_trace() || throws([&] { in->read_trace(); }), "segy/trace-from-nothing", "%s: a trace was returned of a file that ends before the first one", w.c_str());
            c.count("segy_short_files_opened");
        } else
            c.count("segy_short_files_refused");
        return;
    }
    MON_CHECK(!refused, "segy/refused", "%s: a file with complete headers is refused", w.c_str());
    size_t full = 0;
    while (full + 1 < at.size() && at[full + 1] <= n)
        ++full;
    for (size_t k = 0; k < full; ++k) {
        MON_CHECK(in->has_trace(), "segy/lost", "%s: has_trace() is false before complete trace %zu of %zu", w.c_str(), k, full);
        try {
            if (r.chance(1, 3))
                sref::cmp_header(f.expect_header(f.tr[k]), in->read_header(), "segy/header", w);
            else {
                sedaman::Trace t = in->read_trace();
                sref::cmp_header(f.expect_header(f.tr[k]), t.header(), "segy/header", w);
                sref::cmp_samples(f.expect_samples(f.tr[k]), t.samples(), "segy/samples", w);
            }
        } catch (Fail const&) {
            throw;
        } catch (std::exception const& e) {
            MON_CHECK(false, "segy/lost", "%s: complete trace %zu of %zu can not be read: %s", w.c_str(), k, full, e.what());
        }
        c.count("segy_complete_traces_read");
    }
    bool cut = n != at[full];
    MON_CHECK(in->has_trace() == cut, cut ? "segy/cut-hidden" : "segy/invented", "%s: has_trace() is %d behind %zu complete traces, %zu bytes follow", w.c_str(), in->has_trace(), full, n - at[full]);
    if (cut) {
        bool hd = r.chance(1, 2);
        bool threw = throws([&] { hd ? (void)in->read_header() : (void)in->read_trace(); });
        MON_CHECK(threw, "segy/cut-accepted", "%s: %s of a trace cut after %zu of %zu bytes succeeded", w.c_str(), hd ? "read_header()" : "read_trace()", n - at[full], at[full + 1] - at[full]);
        c.count("segy_incomplete_traces_reported");
    }
    // a sorted reader needs all the headers
    if (full && r.chance(1, 3)) {
        string key = f.map[0].second.begin()->second.first;
        std::unique_ptr<ISEGYSorted1D> so;
        bool no = throws([&] { so = std::make_unique<ISEGYSorted1D>(p, key, f.map); });
        MON_CHECK(no == cut, cut ? "segy/sorted-cut" : "segy/sorted-refused", "%s: sorted reader %s", w.c_str(), no ? "refused a file of complete traces" : "accepted a cut file");
        size_t k = 0;
        while (so && so->has_trace() && k <= full) {
            so->read_trace();
            ++k;
        }
        MON_CHECK(!so || k == full, "segy/sorted-count", "%s: sorted reader returned %zu of %zu traces", w.c_str(), k, full);
        c.count("segy_sorted");
    }
}
struct Piece { // of a SEG-D file
    size_t end;
    int what; // 0 headers, 1 trace, 2 trailer
    size_t rec, tr;
};
static std::vector<Piece> pieces(DFile const& f)
{
    std::vector<Piece> v;
    size_t o = 0;
    for (size_t k = 0; k < f.rec.size(); ++k) {
        o += f.rec[k].head().size();
        v.push_back({ o, 0, k, 0 });
        for (size_t i = 0; i < f.rec[k].tr.size(); ++i) {
            o += Rec::trace_bytes(f.rec[k].tr[i]).size();
            v.push_back({ o, 1, k, i });
        }
        o += f.rec[k].trailer.size();
        v.push_back({ o, 2, k, 0 });
    }
    return v;
}
// Known finding: the last trace of a record is lost if what follows it (trailer,
// headers of the next records) is cut. It is looked for by the case
// "last-trace" only, all the others pass it.
static void segd_prefix(Ctx& c, DFile const& f, std::vector<Piece> const& pc, string const& p, size_t n, string const& tag, bool last_trace = false)
{
    string w = tag + fmt(", %zu of %zu bytes present: ", n, pc.back().end) + fmt("%zu records, first: ", f.rec.size()) + rec_desc(f.rec[0]);
    std::unique_ptr<ISEGD> in;
    bool refused = throws([&] { in = std::make_unique<ISEGD>(p, f.maps); });
    size_t full = 0; // complete pieces
    while (full < pc.size() && pc[full].end <= n)
        ++full;
    // the reader passes records without traces when it is opened
    size_t need = 0;
    while (need < pc.size() && pc[need].what != 1)
        ++need;
    if (full < need) {
        // between two records, or only the trailer of a record without traces is missing
        bool ends = full && pc[full - 1].end == n && (pc[full - 1].what == 2 || f.rec[pc[full - 1].rec].tr.empty());
        MON_CHECK(refused || (!in->has_trace() || throws([&] { in->read_trace(); })), "segd/trace-from-nothing", "%s: a trace was returned of a file that ends before the first one", w.c_str());
        MON_CHECK(refused || ends, "segd/cut-hidden", "%s: a file that ends inside of its headers is accepted", w.c_str());
        c.count("segd_short_files");
        return;
    }
    MON_CHECK(!refused, "segd/refused", "%s: a file with complete headers is refused", w.c_str());
    for (size_t k = 0; k < full; ++k) {
        if (pc[k].what != 1)
            continue;
        Rec const& x = f.rec[pc[k].rec];
        DTr const& y = x.tr[pc[k].tr];
        string wt = w + fmt(", record %zu trace %zu of %zu", pc[k].rec + 1, pc[k].tr + 1, x.tr.size());
        MON_CHECK(in->has_trace(), "segd/lost", "%s: has_trace() is false before a complete trace", wt.c_str());
        bool last = pc[k].tr + 1 == x.tr.size() && full < pc.size() && pc[full].what != 1;
        for (size_t j = k + 1; last && j < full; ++j)
            last = pc[j].what != 1;
        if (last)
            c.count("segd_cut_behind_last_trace");
        try {
            sedaman::Trace t = in->read_trace();
            cmp_header(expect_trc_header(x, y, f.maps), t.header(), "segd/header", wt);
            cmp_dsamples(x, y, t.samples(), "segd/samples", wt);
        } catch (Fail const&) {
            throw;
        } catch (std::exception const& e) {
            if (last) {
                MON_CHECK(!last_trace, "segd/last-trace-lost", "%s: the trace is complete but can not be read because the file is cut behind it: %s", wt.c_str(), e.what());
                return;
            }
            MON_CHECK(false, "segd/lost", "%s: a complete trace can not be read: %s", wt.c_str(), e.what());
        }
        c.count("segd_complete_traces_read");
    }
    bool whole = full == pc.size() || (pc[full - 1].end == n && (pc[full - 1].what == 2 || f.rec[pc[full - 1].rec].tr.empty()));
    // a trailer of no bytes is complete with the last trace
    if (whole) {
        MON_CHECK(!in->has_trace() && !in->has_record(), "segd/invented", "%s: has_trace() %d has_record() %d behind the last complete record", w.c_str(), in->has_trace(), in->has_record());
        c.count("segd_cut_between_records");
        return;
    }
    bool seen = in->has_trace();
    bool threw = seen && throws([&] { in->read_trace(); });
    MON_CHECK(seen && threw, seen ? "segd/cut-accepted" : "segd/cut-hidden", "%s: the file is cut inside of a record (%s), %s", w.c_str(),
        pc[full].what == 0 ? "headers" : pc[full].what == 1 ? "trace" : "trailer", seen ? "a trace was returned" : "has_trace() is false");
    c.count(fmt("segd_reported:%s", pc[full].what == 0 ? "headers" : pc[full].what == 1 ? "trace" : "trailer"));
}
// cuts worth trying: around every bound, and anywhere
static std::vector<size_t> cuts(Ctx& c, Rng& r, std::vector<size_t> const& at, size_t size)
{
    std::set<size_t> s;
    for (size_t a : at)
        for (long d : { -241L, -240L, -239L, -33L, -32L, -2L, -1L, 0L, 1L, 2L, 19L, 20L, 21L, 239L, 240L, 241L })
            if (static_cast<long>(a) + d >= 0 && a + static_cast<size_t>(d) <= size)
                s.insert(a + static_cast<size_t>(d));
    for (int i = 0; i < 12; ++i)
        s.insert(r.below(size + 1));
    std::vector<size_t> v(s.begin(), s.end());
    size_t most = c.thorough ? 60 : 24;
    for (size_t k = v.size(); k > 1; --k)
        std::swap(v[k - 1], v[r.below(k)]);
    if (v.size() > most)
        v.resize(most);
    std::sort(v.rbegin(), v.rend());
    return v;
}
static void cut_to(string const& p, size_t n)
{
    if (truncate(p.c_str(), static_cast<off_t>(n)))
        throw std::runtime_error("truncate");
}
static void c27(Ctx& c)
{
    c.cases("segy-cut", c.scaled(260, 6000), [&](Rng& r, uint64_t i) {
        sref::GenOpt o;
        o.allow_trailer = false;
        o.rev = static_cast<int>(i % 3);
        o.max_ns = 30;
        o.max_traces = 6;
        o.big_ns_den = 0;
        o.many_den = 0;
        sref::File f = sref::gen_file(r, o);
        auto at = bounds(f);
        string b = f.bytes(), p = c.path("c27.sgy");
        if (at.back() != b.size())
            throw std::runtime_error("bounds");
        write_file(p, b);
        c.note(f.describe());
        for (size_t n : cuts(c, r, at, b.size())) {
            cut_to(p, n);
            segy_prefix(c, r, f, at, p, n, "cut");
            c.count("segy_cuts");
        }
        c.nontrivial(content_sig(b));
        c.sample("segy-cut", f.describe());
    });
    c.cases("segd-cut", c.scaled(260, 6000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.maps = i & 1;
        o.max_ns = 12;
        o.max_ch = 3;
        o.empties = r.chance(1, 4);
        DFile f = gen_dfile(r, o);
        string b = f.bytes(), p = c.path("c27.segd");
        auto pc = pieces(f);
        std::vector<size_t> at { 0 };
        for (auto& x : pc)
            at.push_back(x.end);
        write_file(p, b);
        c.note(rec_desc(f.rec[0]));
        for (size_t n : cuts(c, r, at, b.size())) {
            cut_to(p, n);
            segd_prefix(c, f, pc, p, n, "cut");
            c.count("segd_cuts");
        }
        c.nontrivial(content_sig(b));
        c.sample("segd-cut", rec_desc(f.rec[0]));
    });
    c.cases("last-trace", 4, [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = 2;
        o.code = 8058;
        o.nrec = 2;
        o.max_ns = 4;
        DFile f;
        do
            f = gen_dfile(r, o);
        while (f.rec[0].trailer.empty() != (i & 1));
        auto pc = pieces(f);
        size_t k = 0;
        while (pc[k].what != 2)
            ++k;
        size_t n = pc[k].end + (i & 1 ? 1 + r.below(31) : 0) - (i & 1 ? 0 : 1 + r.below(31));
        string p = c.path("c27l.segd");
        write_file(p, f.bytes().substr(0, n));
        segd_prefix(c, f, pc, p, n, i & 1 ? "cut in the next headers" : "cut in the trailer", true);
        c.count("last_trace_probes");
    });
    // what is on disk while a writer is at work, as a crash would leave it
    c.cases("segy-crash", c.scaled(160, 4000), [&](Rng& r, uint64_t i) {
        sref::GenOpt o;
        o.canonical = true;
        o.allow_trailer = false;
        o.allow_gap = false;
        o.rev = static_cast<int>(i % 3);
        o.max_ns = r.chance(1, 2) ? 30 : 900;
        o.min_traces = 1;
        o.max_traces = r.chance(1, 2) ? 8 : 60;
        o.big_ns_den = 0;
        o.many_den = 0;
        o.true_counts = true;
        sref::File f = sref::gen_file(r, o);
        auto at = bounds(f);
        string want = f.bytes(), p = c.path("c27w.sgy"), q = c.path("c27s.sgy");
        write_file(q, want);
        c.note(f.describe());
        std::vector<string> snap;
        {
            sedaman::ISEGY in(q, f.map);
            auto out = sref::make_writer(f.bh.SEGY_rev_major_ver, p, in.text_headers(), in.binary_header(), {}, f.map);
            snap.push_back(read_file(p));
            while (in.has_trace()) {
                sedaman::Trace t = in.read_trace();
                out->write_trace(t);
                string s = read_file(p);
                if (s != snap.back())
                    snap.push_back(s);
            }
        }
        string fin = read_file(p);
        sref::cmp_bytes(want, fin, "segy-crash/final", f.describe());
        for (auto& s : snap) {
            MON_CHECK(s.size() <= fin.size() && fin.compare(0, s.size(), s) == 0, "segy-crash/not-a-prefix", "%s: with %zu bytes written the file is not a part of the finished file", f.describe().c_str(), s.size());
            write_file(q, s);
            segy_prefix(c, r, f, at, q, s.size(), "unfinished");
            c.count("segy_unfinished_files");
            if (s.size() > at[0])
                c.count("segy_unfinished_files_with_traces");
        }
        c.nontrivial(content_sig(want));
        c.sample("segy-crash", f.describe());
    });
    c.cases("segd-crash", c.scaled(160, 4000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        o.int_descale = true;
        o.maps = i & 1;
        o.max_ns = r.chance(1, 2) ? 24 : 600;
        o.max_ch = r.chance(1, 2) ? 4 : 20;
        DFile f = gen_dfile(r, o);
        auto pc = pieces(f);
        string want = f.bytes(), p = c.path("c27w.segd"), q = c.path("c27s.segd");
        write_file(q, want);
        string tag = rec_desc(f.rec[0]);
        c.note(tag);
        std::vector<string> snap;
        {
            ISEGD in(q, f.maps);
            std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>> add;
            for (auto& n : in.general_headerN())
                add.push_back(std::make_shared<CS::GeneralHeaderN>(n));
            auto out = std::make_unique<sedaman::OSEGDRev2_1>(p, in.general_header(), *in.general_header2(), in.channel_set_headers(), add, in.extended_headers(), in.external_headers(), f.maps);
            snap.push_back(read_file(p));
            for (size_t k = 0; k < f.rec[0].tr.size(); ++k) {
                sedaman::Trace t = in.read_trace();
                out->write_trace(t);
                string s = read_file(p);
                if (s != snap.back())
                    snap.push_back(s);
            }
        }
        string fin = read_file(p);
        sref::cmp_bytes(want, fin, "segd-crash/final", tag);
        for (auto& s : snap) {
            MON_CHECK(s.size() <= fin.size() && fin.compare(0, s.size(), s) == 0, "segd-crash/not-a-prefix", "%s: with %zu bytes written the file is not a part of the finished file", tag.c_str(), s.size());
            write_file(q, s);
            segd_prefix(c, f, pc, q, s.size(), "unfinished");
            c.count("segd_unfinished_files");
            if (s.size() > pc[0].end)
                c.count("segd_unfinished_files_with_traces");
        }
        c.nontrivial(content_sig(want));
        c.sample("segd-crash", tag);
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C27", c27 } }); }
