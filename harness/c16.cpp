// C16: sample values of every SEG-D format against an independent decoder
#include "segd_ref.hpp"
using namespace dref;

static DFile one(Rng& r, int code, std::vector<string> const& data, int rev)
{
    DFile f;
    DGen o;
    o.rev = rev;
    o.code = code;
    o.nrec = 1;
    o.max_ns = 4;
    o.zero_descale = true;
    f = gen_dfile(r, o);
    Rec& x = f.rec[0];
    // one channel set carries all traces
    for (size_t i = 0; i < x.cs.size(); ++i)
        for (size_t j = 0; j < x.cs[i].size(); ++j) {
            uint64_t n = i == 0 && j == 0 ? data.size() : 0;
            if (rev >= 3)
                pb(x.cs[i][j], 20, 3, n);
            else
                set_bcd(x.cs[i][j], 16, 4, static_cast<int64_t>(n));
        }
    x.tr.clear();
    for (auto& d : data) {
        DTr t;
        t.hdr = string(20, '\0');
        set_bcd(t.hdr, 4, 2, 1);
        set_bcd(t.hdr, 6, 2, 1);
        t.hdr[9] = 1;
        t.samp = d;
        t.ns = static_cast<uint32_t>(d.size() * 8 / static_cast<size_t>(dbits(code)));
        string e(32, '\0');
        if (rev >= 3)
            pb(e, 24, 4, t.ns);
        else
            pb(e, 7, 3, t.ns);
        t.ext.push_back(e);
        x.tr.push_back(t);
    }
    return f;
}
static void c16(Ctx& c)
{
    auto run = [&](DFile const& f, char const* kind) {
        string b = f.bytes(), p = c.path("c16.segd");
        write_file(p, b);
        c.note(kind + (" " + rec_desc(f.rec[0])));
        read_and_check(c, f, p, CK_SAMP, kind);
        bool any = false;
        for (auto& r : f.rec)
            for (auto& t : r.tr)
                any |= t.ns > 0;
        if (any)
            c.nontrivial(b);
        c.sample(fmt("%s:%d", kind, f.rec[0].code), rec_desc(f.rec[0]));
    };
    // all bit patterns of the 8- and 16-bit formats and of 8015
    c.cases("exhaustive", 10, [&](Rng& r, uint64_t i) {
        static int codes[] = { 8022, 8042, 8024, 8044, 8015 };
        int code = codes[i % 5];
        std::vector<string> d;
        if (code == 8015) {
            // every exponent with every fraction, each of the four places of a group
            for (int e = 0; e < 16; ++e) {
                string s;
                for (unsigned v = 0; v < 32768; v += 4) {
                    string g(10, '\0');
                    for (unsigned k = 0; k < 4; ++k) {
                        set_nib(g, static_cast<int>(k), static_cast<int>((static_cast<unsigned>(e) + (v >> 2)) & 15));
                        unsigned x = v + ((k + static_cast<unsigned>(e)) & 3);
                        pb(g, static_cast<int>(2 + 2 * k), 2, x << 1);
                    }
                    s += g;
                }
                d.push_back(s);
            }
        } else if (dbits(code) == 8) {
            string s;
            for (int v = 0; v < 256; ++v)
                s += static_cast<char>(v);
            d.push_back(s);
        } else {
            string s;
            for (int v = 0; v < 65536; ++v) {
                s += static_cast<char>(v >> 8);
                s += static_cast<char>(v);
            }
            d.push_back(s);
        }
        c.count(fmt("exhausted:%d", code));
        run(one(r, code, d, i < 5 ? 2 : 3), "exhaustive");
    });
    // 24-bit formats: strided in quick, complete in thorough; wider ones: every
    // combination of the leading 12 bits
    c.cases("24bit", 2 * c.scaled(1, 16), [&](Rng& r, uint64_t i) {
        int code = i & 1 ? 9036 : 8036;
        std::vector<string> d;
        uint32_t lo = c.thorough ? static_cast<uint32_t>(i / 2) << 20 : 0, n = c.thorough ? 1u << 20 : 0x1000000;
        string s;
        for (uint32_t v = lo; v < lo + n; v += c.thorough ? 1 : 61) {
            char q[3];
            put(q, 3, v, false);
            s.append(q, 3);
        }
        d.push_back(s);
        run(one(r, code, d, 2), "24bit");
    });
    c.cases("wide", c.scaled(8, 80), [&](Rng& r, uint64_t i) {
        static int codes[] = { 8038, 8048, 8058, 8080, 9038, 9038, 9058, 9080 };
        int code = codes[i % 8];
        int n = dbits(code) / 8;
        string s;
        for (uint32_t hi = 0; hi < 4096; ++hi)
            for (int k = 0; k < 4; ++k) {
                uint64_t v = any_bits(r, n);
                v = (v & ~(0xfffull << (8 * n - 12))) | static_cast<uint64_t>(hi) << (8 * n - 12);
                char q[8];
                put(q, n, v, code >= 9000);
                s.append(q, static_cast<size_t>(n));
            }
        run(one(r, code, { s, s.substr(0, static_cast<size_t>(n) * 7), "", s.substr(static_cast<size_t>(n) * 100, static_cast<size_t>(n) * 900) }, static_cast<int>(1 + i % 3)), "wide");
    });
    // random files: several records, formats, channel sets with their own descale
    // multiplier, trace lengths that change from trace to trace
    c.cases("random", c.scaled(1500, 40000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.code = dformats()[i % dformats().size()].code;
        if (r.chance(1, 3))
            o.code = 0; // records of different formats
        o.max_ns = r.chance(1, 10) ? 400 : 40;
        run(gen_dfile(r, o), "random");
        c.count("random_files");
    });
    c.cases("descale", c.scaled(300, 6000), [&](Rng& r, uint64_t) {
        DGen o;
        o.rev = static_cast<int>(r.range(0, 2));
        o.int_descale = r.chance(2, 3);
        o.max_ns = 12;
        DFile f = gen_dfile(r, o);
        for (auto& x : f.rec)
            for (auto& t : x.tr)
                c.count(x.descale(t.st, t.cs) == 0 ? "descale:zero" : x.descale(t.st, t.cs) == std::floor(x.descale(t.st, t.cs)) ? "descale:integer" : "descale:fraction");
        run(f, "descale");
    });
    // revision 3 stores the descale multiplier as an IEEE float
    c.cases("rev3-descale", 4, [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = 3;
        o.code = 8058;
        o.nrec = 1;
        string s(8, '\0');
        put(&s[0], 4, f32_enc(3.5f), false);
        put(&s[4], 4, f32_enc(-2.0f), false);
        DFile f = one(r, 8058, { s }, 3);
        static float mp[] = { 1.0f, -2.0f, 0.5f, 4.0f };
        pb(f.rec[0].cs[0][0], 16, 4, f32_enc(mp[i]));
        string p = c.path("c16d.segd");
        write_file(p, f.bytes());
        ISEGD in(p, f.maps);
        auto t = in.read_trace();
        double want[] = { 3.5, -2.0 };
        for (size_t k = 0; k < 2; ++k)
            MON_CHECK(std::fabs(t.samples()[k] - want[k] * std::exp2(mp[i])) < 1e-6, "rev3-descale",
                "revision 3 descale multiplier %g (stored as IEEE float): sample %g read as %g, expected %g", static_cast<double>(mp[i]), want[k], t.samples()[k], want[k] * std::exp2(mp[i]));
        c.count("rev3_descale_probes");
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C16", c16 } }); }
