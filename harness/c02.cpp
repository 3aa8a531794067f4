// C02 monitor
#include "segy_ref.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

struct WCase {
    int rev;
    Fmt f;
    bool le, variable, zero_bh;
    BH bh {};
    Map map;
    std::vector<string> text;
};
static WCase gen_wcase(Rng& r, int rev = -1)
{
    WCase w;
    w.rev = rev >= 0 ? rev : static_cast<int>(r.below(3));
    w.zero_bh = r.chance(1, 6);
    w.map = CommonSEGY::default_trace_header;
    if (w.zero_bh) {
        w.f = fmt_of(w.rev == 0 ? 1 : 5);
        w.le = false;
        w.variable = w.rev != 0;
        return w;
    }
    w.f = formats()[r.below(formats().size())];
    w.le = r.chance(1, 2);
    w.variable = w.rev != 0 && r.chance(1, 2);
    w.bh.format_code = static_cast<int16_t>(w.f.code);
    w.bh.endianness = w.le ? END_LE : (r.chance(1, 2) ? 0 : END_BE);
    w.bh.fixed_tr_length = w.rev == 0 ? 0 : !w.variable;
    w.bh.SEGY_rev_major_ver = static_cast<uint8_t>(r.chance(1, 2) ? w.rev : 0);
    w.bh.samp_int = 2000;
    if (r.chance(1, 4) && w.rev)
        for (int i = 0, n = static_cast<int>(r.range(1, 3)); i < n; ++i)
            w.text.push_back(text_block(r, false));
    return w;
}
static void c02(Ctx& c)
{
    auto run = [&](WCase& w, std::vector<std::vector<double>> const& traces, bool exact, string const& tag) {
        string p = c.path("c02.sgy");
        {
            auto out = make_writer(w.rev, p, w.text, w.bh, {}, w.map);
            for (auto& s : traces) {
                HV h;
                h["SAMP_NUM"] = static_cast<int64_t>(s.size());
                h["SAMP_INT"] = int64_t(2000);
                Trace t(h, s);
                out->write_trace(t);
            }
        }
        string b = read_file(p);
        size_t off = 3600 + 3200 * (w.text.empty() ? 0 : w.text.size() - 1);
        for (size_t k = 0; k < traces.size(); ++k) {
            off += 240;
            for (size_t i = 0; i < traces[k].size(); ++i) {
                char e[8];
                MON_CHECK(off + static_cast<size_t>(w.f.bytes) <= b.size(), "write/short-file", "%s: file ends inside trace %zu sample %zu", tag.c_str(), k, i);
                double v = traces[k][i], got = samp_dec(w.f, b.data() + off, w.le);
                if (exact) {
                    samp_enc(w.f, e, w.le, v);
                    bool ieee = w.f.kind == 'f' || w.f.kind == 'd';
                    MON_CHECK(!memcmp(e, b.data() + off, static_cast<size_t>(w.f.bytes)) || (v == 0 && got == 0 && !ieee) || (std::isnan(v) && std::isnan(got)),
                        fmt("write/fmt%d", w.f.code), "%s: sample %zu value %.17g stored as %s, standard encoding is %s", tag.c_str(),
                        i, v, hex(b, off, static_cast<size_t>(w.f.bytes)).c_str(), hex(string(e, 8), 0, static_cast<size_t>(w.f.bytes)).c_str());
                } else {
                    int ex;
                    frexp(v, &ex);
                    double ulp = ldexp(1.0, 4 * (ex > 0 ? (ex + 3) / 4 : -((-ex) / 4)) - 24);
                    MON_CHECK(fabs(got - v) < ulp, "write/ibm-error", "%s: %.17g stored as %.17g, error exceeds one unit in the last place (%g)",
                        tag.c_str(), v, got, ulp);
                }
                off += static_cast<size_t>(w.f.bytes);
                c.count("samples_written");
            }
            c.count(fmt("traces:rev%d:fmt%d:%s", w.rev, w.f.code, w.le ? "LE" : "BE"));
        }
        MON_CHECK(off == b.size(), "write/file-size", "%s: file has %zu bytes, expected %zu", tag.c_str(), b.size(), off);
        ISEGY in(p, w.map);
        for (size_t k = 0; k < traces.size(); ++k) {
            MON_CHECK(in.has_trace(), "readback/missing", "%s: trace %zu missing on read-back", tag.c_str(), k);
            Trace t = in.read_trace();
            if (exact)
                cmp_samples(traces[k], t.samples(), "readback/samples", tag);
            else
                MON_CHECK(t.samples().size() == traces[k].size(), "readback/count", "%s: %zu samples read back of %zu", tag.c_str(), t.samples().size(), traces[k].size());
            c.count("samples_read_back", t.samples().size());
        }
        MON_CHECK(!in.has_trace(), "readback/extra", "%s: more traces than written", tag.c_str());
    };
    c.cases("random-values", c.scaled(1200, 30000), [&](Rng& r, uint64_t) {
        WCase w = gen_wcase(r);
        int ns = static_cast<int>(r.below(80)) + (w.zero_bh ? 1 : 0);
        if (!w.zero_bh && !w.variable && r.chance(1, 40))
            ns = static_cast<int>(r.range(32760, w.rev ? 66000 : 65535));
        std::vector<std::vector<double>> tr(r.below(4) + 1);
        if (ns > 1000)
            tr.resize(1);
        uint64_t h = 7;
        for (auto& t : tr) {
            int n = w.variable ? static_cast<int>(r.below(80)) + (w.zero_bh ? 1 : 0) : ns;
            for (int i = 0; i < n; ++i) {
                t.push_back(repr_sample(r, w.f));
                if (std::isnan(t.back()))
                    c.count("nan_samples_written");
                if (t.back() == 0 && std::signbit(t.back()))
                    c.count("negative_zeros_written");
                uint64_t bits = f64_enc(t.back());
                h = mix(h ^ bits);
            }
        }
        if (!w.zero_bh) {
            if (!w.variable && (ns > 65535 || r.chance(1, 6)) && ns > 0)
                w.bh.ext_samp_per_tr = ns;
            else
                w.bh.samp_per_tr = static_cast<int16_t>(w.variable ? 0 : ns);
        }
        string tag = fmt("rev%d fmt%d %s %s%s ns=%d ext=%d", w.rev, w.f.code, w.le ? "LE" : "BE", w.variable ? "variable" : "fixed",
            w.zero_bh ? " default-header" : "", ns, w.bh.ext_samp_per_tr);
        c.note(tag);
        run(w, tr, true, tag);
        c.nontrivial(h);
        c.sample("written", tag);
    });
    c.cases("ibm-sweep", c.scaled(12, 200), [&](Rng& r, uint64_t i) {
        WCase w = gen_wcase(r, static_cast<int>(i % 3));
        w.zero_bh = false;
        w.f = fmt_of(1);
        w.le = i & 1;
        w.variable = false;
        w.text.clear();
        w.bh = {};
        w.bh.format_code = 1;
        w.bh.endianness = w.le ? END_LE : 0;
        w.bh.fixed_tr_length = 1;
        w.bh.samp_int = 1;
        std::vector<double> s;
        for (int e = -250; e <= 250; ++e) {
            double b = ldexp(1.0, e);
            s.push_back(b);
            s.push_back(-b);
        }
        for (int k = 0; k < 3000; ++k)
            s.push_back(repr_value(r, w.f));
        w.bh.samp_per_tr = static_cast<int16_t>(s.size());
        run(w, { s }, true, "IBM exact sweep");
        c.nontrivial(fmt("ibmx%d", static_cast<int>(i)));
        std::vector<double> q;
        for (int e = -250; e <= 250; ++e)
            for (double b : { nextafter(ldexp(1.0, e), 0.0), nextafter(ldexp(1.0, e), 1e300), -nextafter(ldexp(1.0, e), 0.0) })
                q.push_back(b);
        for (int k = 0; k < 3000; ++k) {
            double m = 1.0 + static_cast<double>(r.below(1ULL << 52)) * 0x1p-52;
            q.push_back(ldexp(r.chance(1, 2) ? m : -m, static_cast<int>(r.range(-250, 249))));
        }
        w.bh.samp_per_tr = static_cast<int16_t>(q.size());
        run(w, { q }, false, "IBM rounding sweep");
        c.nontrivial(fmt("ibmr%d", static_cast<int>(i)));
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C02", c02 } }); }
