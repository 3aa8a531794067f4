// C18: what the SEG-D 2.1 writer stores
#include "segd_ref.hpp"
#include "OSEGDRev2_1.hpp"
using namespace dref;
using sedaman::OSEGDRev2_1;
using sedaman::Trace;

using Adds = std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>>;
struct Args { // what the writer is given; everything comes from a verified reading
    CS::GeneralHeader gh;
    CS::GeneralHeader2 gh2;
    std::vector<std::vector<CS::ChannelSetHeader>> cs;
    Adds add;
    std::vector<std::vector<char>> extd, extl;
};
static Args args_of(ISEGD& in)
{
    Args a { in.general_header(), *in.general_header2(), in.channel_set_headers(), {}, in.extended_headers(), in.external_headers() };
    for (auto& n : in.general_headerN())
        a.add.push_back(std::make_shared<CS::GeneralHeaderN>(n));
    return a;
}
static std::unique_ptr<OSEGDRev2_1> open_w(string const& p, Args const& a, ExtMaps const& maps)
{
    return std::make_unique<OSEGDRev2_1>(p, a.gh, a.gh2, a.cs, a.add, a.extd, a.extl, maps);
}
// where in the record a byte lies
static string region(Rec const& x, size_t off)
{
    size_t p = 0;
    auto in = [&](string const& name, size_t n) -> string {
        if (off < p + n)
            return name + fmt(" byte %zu", off - p);
        p += n;
        return {};
    };
    string s;
    if (!(s = in("general-header-1", 32)).empty())
        return s;
    if (!(s = in("general-header-2", 32)).empty())
        return s;
    for (size_t i = 0; i < x.blk.size(); ++i)
        if (!(s = in("general-header-n", 32)).empty())
            return s;
    for (size_t i = 0; i < x.cs.size(); ++i) {
        for (size_t j = 0; j < x.cs[i].size(); ++j)
            if (!(s = in("channel-set", 32)).empty())
                return s;
        if (!(s = in("skew", x.skew[i].size())).empty())
            return s;
    }
    if (!(s = in("extended-header", 32 * x.extd.size())).empty())
        return s;
    if (!(s = in("external-header", 32 * x.extl.size())).empty())
        return s;
    for (auto& t : x.tr) {
        if (!(s = in("trace-header", 20)).empty())
            return s;
        for (size_t k = 0; k < t.ext.size(); ++k)
            if (!(s = in(fmt("trace-extension-%zu", k), 32)).empty())
                return s;
        if (!(s = in("samples", t.samp.size())).empty())
            return s;
    }
    return "behind the end";
}
static void cmp_written(Rec const& x, string const& want, string const& got, string const& where)
{
    size_t n = std::min(want.size(), got.size()), i = 0;
    while (i < n && want[i] == got[i])
        ++i;
    if (want.size() == got.size() && i == n)
        return;
    string rg = region(x, i);
    string k = "bytes/" + rg.substr(0, rg.find(' '));
    MON_CHECK(false, k.c_str(), "%s: written %zu bytes, expected %zu; first difference at %zu (%s): written %s, expected %s", where.c_str(), got.size(), want.size(), i,
        rg.c_str(), hex(got, i, 12).c_str(), hex(want, i, 12).c_str());
}
// the same number in another alternative of the variant, where it fits
static Value retype(Rng& r, Value const& v)
{
    if (auto* i = std::get_if<int64_t>(&v)) {
        if (r.chance(1, 4) && *i > -(int64_t { 1 } << 52) && *i < (int64_t { 1 } << 52))
            return Value(static_cast<double>(*i));
    } else if (auto* d = std::get_if<double>(&v)) {
        if (r.chance(1, 4) && std::isfinite(*d) && *d == std::floor(*d) && std::fabs(*d) < 9e15 && !(*d == 0 && std::signbit(*d)))
            return Value(static_cast<int64_t>(*d));
    }
    return v;
}

static HV hv(Trace& t)
{
    HV h;
    for (auto& k : t.header().keys())
        h[k] = *t.header().get(k);
    return h;
}

static void c18(Ctx& c)
{
    auto copy_case = [&](Rng& r, DGen o, char const* kind, bool direct) {
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        DFile f = gen_dfile(r, o);
        Rec const& x = f.rec[0];
        string want = f.bytes(), p = c.path("c18i.segd"), q = c.path("c18o.segd");
        string w = string(kind) + " (" + rec_desc(x) + fmt(", %zu maps)", f.maps.size());
        c.note(w);
        write_file(p, want);
        ISEGD in(p, f.maps);
        cmp_general(c, in, x, w);
        cmp_chsets(c, in, x, w);
        Args a = args_of(in);
        {
            auto out = open_w(q, a, f.maps);
            for (size_t i = 0; i < x.tr.size(); ++i) {
                Trace t = in.read_trace();
                if (direct) {
                    // headers and samples from the reference, not from the reader
                    HV h;
                    std::set<string> drop;
                    if (f.maps.empty() && r.chance(1, 3)) {
                        // headers a trace does not have are stored as zero, set numbers as one
                        DTr& y = f.rec[0].tr[i];
                        auto gone = [&](char const* n) {
                            bool d = r.chance(1, 3);
                            if (d) {
                                drop.insert(n);
                                c.count(string("absent:") + n);
                            }
                            return d;
                        };
                        if (gone("FFID"))
                            pb(y.hdr, 0, 2, 0), pb(y.hdr, 17, 3, 0);
                        if (gone("CHAN"))
                            pb(y.hdr, 4, 2, 0);
                        if (gone("FIRST_TIMING_WORD"))
                            pb(y.hdr, 6, 3, 0);
                        if (gone("SAMPLE_SKEW"))
                            pb(y.hdr, 10, 1, 0);
                        if (gone("TRACE_EDIT"))
                            pb(y.hdr, 11, 1, 0);
                        if (gone("TIME_BREAK_WIN"))
                            pb(y.hdr, 12, 3, 0);
                        if (y.st == 1)
                            gone("SCAN_TYPE_NUM");
                        if (y.cs == 1)
                            gone("CH_SET_NUM");
                        if (!y.ext.empty()) {
                            string& e = y.ext[0];
                            if (gone("R_LINE"))
                                pb(e, 0, 3, 0), pb(e, 10, 5, 0);
                            if (gone("R_POINT"))
                                pb(e, 3, 3, 0), pb(e, 15, 5, 0);
                            if (gone("R_POINT_IDX"))
                                pb(e, 6, 1, 0);
                            if (gone("SENSOR_TYPE"))
                                pb(e, 20, 1, 0);
                        }
                    }
                    HV e = expect_trc_header(x, x.tr[i], f.maps);
                    for (auto& n : drop)
                        e.erase(n);
                    std::vector<string> ks;
                    for (auto& kv : e)
                        ks.push_back(kv.first);
                    std::sort(ks.begin(), ks.end());
                    for (size_t k = ks.size(); k > 1; --k)
                        std::swap(ks[k - 1], ks[r.below(k)]);
                    if (r.chance(1, 3))
                        h["SOMETHING_ELSE"] = Value(int64_t { 77 });
                    for (auto& k : ks) {
                        Value v = retype(r, e[k]);
                        h[k] = v;
                    }
                    std::vector<double> s = ddecode(x.code, x.tr[i].samp);
                    double m = std::pow(2.0, x.descale(x.tr[i].st, x.tr[i].cs));
                    for (auto& d : s)
                        d *= m;
                    t = Trace(h, s);
                }
                out->write_trace(t);
                c.count("traces_written");
            }
        }
        want = f.bytes();
        string got = read_file(q);
        cmp_written(x, want, got, w);
        c.count("files_compared");
        c.count(fmt("format:%d", x.code));
        c.count("bytes_compared", got.size());
        if (!f.maps.empty())
            c.count("files_with_mapping");
        if (x.blk.size())
            c.count("files_with_general_header_n");
        read_and_check(c, f, q, CK_GEN | CK_CS | CK_TRC | CK_SAMP, kind);
        c.nontrivial(want);
        c.sample(fmt("%s:fmt%d", kind, x.code), w);
    };
    c.cases("copy", c.scaled(1500, 30000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.maps = i & 1;
        o.big = i % 11 == 0;
        o.int_descale = true;
        o.max_ns = 24;
        copy_case(r, o, "copy", false);
    });
    c.cases("direct", c.scaled(1500, 30000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.maps = i & 1;
        o.big = i % 13 == 0;
        o.int_descale = true;
        o.max_ns = 24;
        copy_case(r, o, "direct", true);
    });
    // every format with all exponents, long traces
    c.cases("samples", c.scaled(180, 4000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.code = dformats()[i % dformats().size()].code;
        o.zero_descale = r.chance(1, 2);
        o.int_descale = true;
        o.max_ns = 3000;
        o.max_ch = 2;
        copy_case(r, o, "samples", r.chance(1, 2));
    });
    // values a format does not have: the nearest one it has, the biggest for those beyond
    c.cases("nearest", c.scaled(90, 1800), [&](Rng& r, uint64_t i) {
        static int const codes[] = { 8015, 8022, 8024, 8036, 8038, 8042, 8044, 9036, 9038 };
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        o.zero_descale = true;
        o.code = codes[i % 9];
        o.max_ns = 400;
        DFile f = gen_dfile(r, o);
        Rec const& x = f.rec[0];
        // all values of the format
        std::vector<double> all;
        double lo = 0, hi = 0;
        bool isint = false;
        switch (o.code) {
        case 8036: case 9036: lo = -0x1p23, hi = 0x1p23 - 1, isint = true; break;
        case 8038: case 9038: lo = -0x1p31, hi = 0x1p31 - 1, isint = true; break;
        case 8015:
            for (int e = 0; e < 16; ++e)
                for (int m = 0; m < 1 << 14; ++m)
                    all.push_back(std::ldexp(m, e - 14));
            break;
        default: {
            int bytes = dbits(o.code) / 8;
            string d;
            for (unsigned v = 0; v < 1u << (8 * bytes); ++v)
                for (int b = bytes - 1; b >= 0; --b)
                    d += static_cast<char>(v >> (8 * b));
            for (double v : ddecode(o.code, d))
                if (v >= 0)
                    all.push_back(v);
        }
        }
        std::sort(all.begin(), all.end());
        if (!isint)
            hi = all.back(), lo = -hi;
        string p = c.path("c18i.segd"), q = c.path("c18o.segd"), w = "nearest (" + rec_desc(x) + ")";
        c.note(w);
        write_file(p, f.bytes());
        std::vector<Trace> ts;
        {
            ISEGD in(p, f.maps);
            auto out = open_w(q, args_of(in), f.maps);
            for (size_t k = 0; k < x.tr.size(); ++k) {
                Trace t = in.read_trace();
                std::vector<double> v(t.samples().size());
                for (auto& d : v) {
                    switch (r.below(6)) {
                    case 0: d = hi * (1 + std::ldexp(static_cast<double>(r.below(4096)), -static_cast<int>(r.below(30)))); break; // at the end of the range
                    case 1: d = std::ldexp(1 + static_cast<double>(r.below(1 << 20)) / (1 << 20), static_cast<int>(r.range(-40, 200))); break;
                    case 2: d = static_cast<double>(r.below(1 << 24)) / 64; break;
                    case 3: d = isint ? static_cast<double>(r.below(1 << 22)) + 0.5 - 0x1p-20 : all[r.below(all.size())] * (1 + 0x1p-30); break;
                    case 4: d = hi * static_cast<double>(r.below(1 << 20)) / (1 << 20); break;
                    default: d = r.chance(1, 2) ? 1e300 : static_cast<double>(r.below(100)) / 7;
                    }
                    if (r.chance(1, 2))
                        d = -d;
                }
                ts.push_back(Trace(hv(t), v));
                out->write_trace(ts.back());
            }
        }
        ISEGD in(q, f.maps);
        for (size_t k = 0; k < ts.size(); ++k) {
            Trace t = in.read_trace();
            auto &a = ts[k].samples(), &b = t.samples();
            MON_CHECK(a.size() == b.size(), "nearest/count", "%s: %zu samples of %zu", w.c_str(), b.size(), a.size());
            for (size_t s = 0; s < a.size(); ++s) {
                double best;
                if (isint)
                    best = a[s] < lo ? lo - a[s] : a[s] > hi ? a[s] - hi : std::fabs(a[s] - std::round(a[s]));
                else {
                    double m = std::fabs(a[s]);
                    auto it = std::lower_bound(all.begin(), all.end(), m);
                    best = it == all.end() ? m - hi : *it - m;
                    if (it != all.begin())
                        best = std::min(best, m - *(it - 1));
                }
                MON_CHECK(std::fabs(a[s] - b[s]) <= best * (1 + 1e-12) + 1e-300, "nearest/value", "%s: sample %.17g was stored as %.17g, the nearest value of the format is %g away", w.c_str(), a[s], b[s], best);
                c.count("nearest_samples");
            }
        }
        c.nontrivial(f.bytes());
    });
    // channel sets of round sizes
    c.cases("round-channels", c.scaled(24, 400), [&](Rng& r, uint64_t i) {
        static int const n[] = { 255, 256, 257, 512, 1000, 1024, 768, 100 };
        DGen o;
        o.maps = i & 1;
        o.int_descale = true;
        o.max_ns = 1;
        o.max_ch = n[i % 8];
        o.round_ch = true;
        copy_case(r, o, "round-channels", r.chance(1, 2));
    });
    // many traces
    c.cases("scale", c.variant == "rel" ? c.scaled(1, 4) : 0, [&](Rng& r, uint64_t) {
        DGen o;
        o.maps = r.chance(1, 2);
        o.int_descale = true;
        o.max_ns = 2;
        o.max_ch = 9999;
        o.round_ch = true; // the most a channel set can have
        copy_case(r, o, "scale", r.chance(1, 2));
        c.count("scale_files");
    });
    // fractional descale: the values cannot be exact, but must be close
    c.cases("descale", c.scaled(200, 4000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        o.code = dformats()[i % dformats().size()].code;
        o.max_ns = 60;
        DFile f = gen_dfile(r, o);
        Rec const& x = f.rec[0];
        string p = c.path("c18i.segd"), q = c.path("c18o.segd"), w = "descale (" + rec_desc(x) + ")";
        c.note(w);
        write_file(p, f.bytes());
        std::vector<Trace> ts;
        {
            ISEGD in(p, f.maps);
            auto out = open_w(q, args_of(in), f.maps);
            for (size_t k = 0; k < x.tr.size(); ++k) {
                ts.push_back(in.read_trace());
                out->write_trace(ts.back());
            }
        }
        MON_CHECK(read_file(q).size() == f.bytes().size(), "descale/size", "%s: wrong size", w.c_str());
        ISEGD in(q, f.maps);
        for (size_t k = 0; k < ts.size(); ++k) {
            Trace t = in.read_trace();
            double m = std::pow(2.0, x.descale(x.tr[k].st, x.tr[k].cs));
            auto &a = ts[k].samples(), &b = t.samples();
            MON_CHECK(a.size() == b.size(), "descale/count", "%s: %zu samples of %zu", w.c_str(), b.size(), a.size());
            for (size_t s = 0; s < a.size(); ++s) {
                if (!std::isfinite(a[s]) || !std::isfinite(b[s])) {
                    c.count("descale_skipped");
                    continue;
                }
                // one unit of the integer formats or of the fraction of the others (4096ths at worst)
                bool isint = x.code == 8036 || x.code == 8038 || x.code == 9036 || x.code == 9038;
                double tol = isint ? m * 1.0001 : std::max(std::fabs(a[s]) / 1024, m * 1.0001);
                MON_CHECK(std::fabs(a[s] - b[s]) <= tol, "descale/value", "%s: trace %zu sample %zu written %.17g read back %.17g with scale %.17g", w.c_str(), k, s, a[s], b[s], m);
                c.count("descaled_samples");
            }
        }
        c.nontrivial(f.bytes());
    });
    // traces and arguments that do not fit are refused and leave the file as it was
    c.cases("misfit", c.scaled(900, 18000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        o.int_descale = true;
        o.maps = i & 1;
        o.max_ns = 16;
        DFile f = gen_dfile(r, o);
        Rec const& x = f.rec[0];
        string want = f.bytes(), p = c.path("c18i.segd"), q = c.path("c18o.segd"), w = "misfit (" + rec_desc(x) + ")";
        write_file(p, want);
        ISEGD in(p, f.maps);
        Args a = args_of(in);
        size_t refused = 0;
        string hist;
        {
            auto out = open_w(q, a, f.maps);
            auto bad = [&](Trace t, char const* what) {
                bool threw = false;
                hist += what;
                hist += ' ';
                try {
                    out->write_trace(t);
                } catch (std::exception const&) {
                    threw = true;
                }
                MON_CHECK(threw, (string("misfit/") + what).c_str(), "%s: trace with %s was accepted", w.c_str(), what);
                c.count(string("refused:") + what);
                ++refused;
            };
            for (size_t k = 0; k < x.tr.size(); ++k) {
                Trace t = in.read_trace();
                while (r.chance(1, 3)) {
                    Trace b = t;
                    switch (r.below(5)) {
                    case 3: {
                        if (t.samples().empty())
                            continue;
                        HV h = hv(t);
                        h.erase("SAMP_NUM");
                        bad(Trace(h, t.samples()), "missing-sample-count");
                        break;
                    }
                    case 0: {
                        int64_t v[] = { 0, int64_t(x.cs.size()) + 1, 65535, int64_t(x.cs.size()) + r.range(1, 40) };
                        b.header().set("SCAN_TYPE_NUM", v[r.below(4)]);
                        bad(b, "unknown-scan-type");
                        break;
                    }
                    case 1: {
                        int64_t v[] = { 0, int64_t(x.cs[0].size()) + 1, 65535, int64_t(x.cs[0].size()) + r.range(1, 400) };
                        b.header().set("CH_SET_NUM", v[r.below(4)]);
                        bad(b, "unknown-channel-set");
                        break;
                    }
                    case 2:
                        {
                            std::vector<double> s = t.samples();
                            s.resize(s.size() + (x.code == 8015 && r.chance(1, 2) ? 4 : 1));
                            bad(Trace(hv(t), s), "other-sample-count");
                        }
                        break;
                    default: {
                        if (f.maps.empty())
                            continue;
                        std::vector<string> ns;
                        for (auto& m : f.maps)
                            for (auto& e : m)
                                ns.push_back(e.second.first);
                        string drop = ns[r.below(ns.size())];
                        static std::set<string> const fixed { "FFID", "SCAN_TYPE_NUM", "CH_SET_NUM", "CHAN", "FIRST_TIMING_WORD", "TR_HDR_EXT", "SAMPLE_SKEW", "TRACE_EDIT", "TIME_BREAK_WIN" };
                        if (fixed.count(drop))
                            continue;
                        HV h;
                        for (auto& kn : t.header().keys())
                            if (kn != drop) {
                                Value v = *t.header().get(kn);
                                h[kn] = v;
                            }
                        bad(Trace(h, t.samples()), "missing-mapped-header");
                    }
                    }
                }
                out->write_trace(t);
                if (k + 1 == x.tr.size())
                    bad(t, "more-traces-than-channels");
            }
        }
        cmp_written(x, want, read_file(q), w + " after refusing: " + hist);
        c.nontrivial(want + hist);
        c.count("refused_traces", refused);
    });
    // sample counts around the limit of the field which stores them
    c.cases("limits", c.scaled(300, 4000), [&](Rng& r, uint64_t) {
        using VT = Trace::Header::ValueType;
        static const struct { VT t; int64_t max; } types[] = {
            { VT::int8_t, 127 }, { VT::uint8_t, 255 }, { VT::int16_t, 32767 }, { VT::uint16_t, 65535 },
            { VT::int24_t, 8388607 }, { VT::uint24_t, 16777215 }, { VT::int32_t, INT32_MAX }, { VT::uint32_t, UINT32_MAX }, { VT::int64_t, INT64_MAX } };
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        o.int_descale = true;
        o.max_ns = 4;
        o.max_ch = 4;
        o.code = r.chance(1, 2) ? 8036 : 8038;
        DFile f = gen_dfile(r, o);
        Rec const& x = f.rec[0];
        string p = c.path("c18i.segd"), q = c.path("c18o.segd");
        write_file(p, f.bytes());
        ISEGD in(p, f.maps);
        Args a = args_of(in);
        ExtMaps m;
        int64_t lim = 16777215;
        size_t blks = 1;
        if (r.chance(5, 6)) {
            auto& ty = types[r.below(9)];
            lim = ty.max;
            FieldMap fm;
            fm[static_cast<uint32_t>(r.below(24))] = { "SAMP_NUM", ty.t };
            if (r.chance(1, 2)) { // in a later block; the last one counts
                FieldMap f0;
                f0[static_cast<uint32_t>(r.below(24))] = { "SAMP_NUM", types[r.below(9)].t };
                m.push_back(f0);
                blks = 2;
            }
            m.push_back(fm);
            if (r.chance(1, 3)) { // a block this file has none of does not count
                FieldMap f2;
                f2[static_cast<uint32_t>(r.below(24))] = { "SAMP_NUM", types[r.below(9)].t };
                m.push_back(f2);
            }
        }
        string hist, w = "limits (" + rec_desc(x) + fmt(", %zu maps, %zu blocks, limit %lld)", m.size(), blks, static_cast<long long>(lim));
        std::vector<Trace> acc;
        {
            auto out = open_w(q, a, m);
            for (size_t k = 0; k < x.tr.size() && k < 5; ++k) {
                Trace t0 = in.read_trace();
                HV h = hv(t0);
                int64_t top = lim > 70000 ? 70000 : lim, cnt;
                switch (r.below(5)) {
                case 0: cnt = top; break;
                case 1: cnt = top + 1; break;
                case 2: cnt = top + r.range(2, 30000); break;
                case 3: cnt = 65536 + r.range(-1, 10); break;
                default: cnt = r.range(0, 300); break;
                }
                h["SAMP_NUM"] = cnt;
                h["TR_HDR_EXT"] = static_cast<int64_t>(blks);
                std::vector<double> s(static_cast<size_t>(cnt));
                double mul = std::pow(2.0, x.descale(x.tr[k].st, x.tr[k].cs));
                for (size_t i = 0; i < s.size(); ++i)
                    s[i] = static_cast<double>((i * 13 + k) % 1000) * mul;
                Trace t(h, s);
                bool ok = cnt <= lim, threw = false;
                hist += fmt(" %lld%s", static_cast<long long>(cnt), ok ? "" : "!");
                c.note(w + hist);
                try {
                    out->write_trace(t);
                } catch (std::exception const&) {
                    threw = true;
                }
                MON_CHECK(threw == !ok, ok ? "limits/refused" : "limits/accepted", "%s: trace with %lld samples was %s, history%s", w.c_str(), static_cast<long long>(cnt), threw ? "refused" : "accepted", hist.c_str());
                if (ok)
                    acc.push_back(t);
                c.count(ok ? "limits_accepted" : "limits_refused");
            }
        }
        if (acc.empty())
            return;
        ISEGD back(q, m);
        for (size_t k = 0; k < acc.size(); ++k) {
            Trace t = back.read_trace();
            auto &u = acc[k].samples(), &v = t.samples();
            MON_CHECK(u.size() == v.size(), "limits/count", "%s: trace %zu has %zu samples, %zu were written; history%s", w.c_str(), k, v.size(), u.size(), hist.c_str());
            for (size_t i = 0; i < u.size(); ++i)
                MON_CHECK(u[i] == v[i], "limits/sample", "%s: trace %zu sample %zu is %.17g, written %.17g; history%s", w.c_str(), k, i, v[i], u[i], hist.c_str());
        }
        c.nontrivial(w + hist);
        c.sample("limits", w + hist);
    });
    c.cases("bad-arguments", c.scaled(600, 9000), [&](Rng& r, uint64_t) {
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        DFile f = gen_dfile(r, o);
        Rec const& x = f.rec[0];
        string p = c.path("c18i.segd"), q = c.path("c18o.segd");
        write_file(p, f.bytes());
        ISEGD in(p, f.maps);
        Args a = args_of(in);
        string what;
        size_t bi = r.below(x.cs.size());
        auto off = [&](int64_t n) { return static_cast<int>(r.chance(1, 4) ? 100 : r.chance(1, 6) ? 164 : r.chance(1, 3) ? r.range(100, 164) : r.chance(1, 2) ? r.range(166, 300) : std::max<int64_t>(166, n + 165)); };
        switch (r.below(11)) {
        case 6: { // a number of blocks that is not what is given
            int n = static_cast<int>(r.below(15));
            if (n == a.gh.add_gen_hdr_blocks)
                return;
            a.gh.add_gen_hdr_blocks = n;
            what = "other-number-of-general-headers";
            break;
        }
        case 7: {
            int n = static_cast<int>(r.chance(1, 4) ? 165 : r.chance(1, 2) ? 100 : r.range(101, 400));
            a.gh.skew_blocks = n;
            what = "too-many-skew-blocks";
            break;
        }
        case 8:
            a.gh2.gen_trailer_num_of_blocks = static_cast<uint32_t>(r.chance(1, 2) ? 1 : r.range(2, 70000));
            what = "trailer-blocks";
            break;
        case 9: {
            a.cs[bi][r.below(a.cs[bi].size())].number_of_channels = static_cast<uint32_t>(r.chance(1, 2) ? 10000 : r.range(10001, 2000000));
            what = "too-many-channels";
            break;
        }
        case 10: { // counts that neither fit two digits nor point to general header 2
            auto const& e0 = std::vector<char>(32, 'x');
            int n = off(0);
            switch (r.below(4)) {
            case 0:
                a.gh.channel_sets_per_scan_type = n;
                for (auto& st : a.cs)
                    while (st.size() < static_cast<size_t>(n))
                        st.push_back(st.back());
                break;
            case 1:
                a.gh.extended_hdr_blocks = n;
                a.extd.assign(static_cast<size_t>(n), e0);
                break;
            case 2:
                a.gh.external_hdr_blocks = n;
                a.extl.assign(static_cast<size_t>(n), e0);
                break;
            default:
                a.gh.scan_types_per_record = r.chance(1, 3) ? 165 : n;
                while (a.cs.size() < static_cast<size_t>(a.gh.scan_types_per_record))
                    a.cs.push_back(a.cs.back());
            }
            what = "count-that-can-not-be-stored";
            break;
        }
        case 0:
            a.cs[bi].push_back(a.cs[bi].back());
            what = "channel-set-too-many";
            break;
        case 1:
            if (a.cs[bi].size() == 1)
                return;
            a.cs[bi].pop_back();
            what = "channel-set-missing";
            break;
        case 2:
        case 3: {
            bool e = r.chance(1, 2);
            auto& v = e ? a.extd : a.extl;
            if (v.empty())
                return;
            if (r.chance(1, 2)) {
                v.pop_back();
                what = "block-missing";
            } else {
                v[r.below(v.size())].resize(r.chance(1, 2) ? 31 : 33);
                what = "block-of-wrong-size";
            }
            break;
        }
        case 4: {
            std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>> k { std::make_shared<CS::GeneralHeaderVes>(CS::GeneralHeaderVes {}) };
            if (a.add.empty())
                a.add.push_back(k[0]);
            else
                a.add[r.below(a.add.size())] = k[0];
            what = "block-of-revision-3";
            break;
        }
        default: {
            a.gh.format_code = static_cast<decltype(a.gh.format_code)>(r.range(0, 9999));
            for (auto& d : dformats())
                if (d.code == a.gh.format_code)
                    return;
            what = "unknown-format";
        }
        }
        bool threw = false;
        try {
            auto out = open_w(q, a, f.maps);
        } catch (std::exception const&) {
            threw = true;
        }
        MON_CHECK(threw, ("arguments/" + what).c_str(), "writer accepted arguments with %s", what.c_str());
        c.count("refused_arguments:" + what);
        c.nontrivial(what + f.bytes());
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C18", c18 } }); }
