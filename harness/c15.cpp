// C15: channel sets, extended and external headers of every record against the stored bytes
#include "segd_ref.hpp"
using namespace dref;

static void c15(Ctx& c)
{
    auto run = [&](DFile const& f, char const* kind) {
        string b = f.bytes(), p = c.path("c15.segd");
        write_file(p, b);
        string heads;
        for (auto& r : f.rec)
            heads += r.head();
        c.note(kind + (" " + rec_desc(f.rec[0])));
        read_and_check(c, f, p, CK_CS, kind);
        c.nontrivial(heads);
        for (auto& r : f.rec) {
            if (r.cs[0].size() > 99)
                c.count("many_channel_sets");
            if (r.cs.size() > 20)
                c.count("many_scan_types");
            if (r.extd.size() > 99 || r.extl.size() > 99)
                c.count("many_header_blocks");
            if (!r.skew[0].empty())
                c.count("with_skew_blocks");
        }
        c.sample(fmt("%s:rev%d", kind, f.rec[0].rev), rec_desc(f.rec[0]) + fmt(", %zu records", f.rec.size()));
    };
    c.cases("random", c.scaled(1500, 40000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.big = i % 4 == 0;
        o.max_ns = 6;
        o.max_ch = 2;
        run(gen_dfile(r, o), "random");
    });
    c.cases("big-counts", c.scaled(160, 3000), [&](Rng& r, uint64_t) {
        DGen o;
        o.big = true;
        o.rev = static_cast<int>(r.range(1, 3));
        o.nrec = 1;
        o.max_ns = 2;
        o.max_ch = 1;
        run(gen_dfile(r, o), "big-counts");
    });
    // more extended and external header blocks than 16 bits count (revision 3 has 24 bits for them)
    c.cases("many-blocks", c.variant == "rel" ? c.scaled(4, 30) : 0, [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = i % 4 < 3 ? 3 : static_cast<int>(r.range(1, 2));
        o.nrec = 2;
        o.max_ns = 2;
        o.max_ch = 1;
        DFile f = gen_dfile(r, o);
        for (int w = 0; w < 2; ++w) {
            Rec& x = f.rec[0];
            auto& v = w ? x.extl : x.extd;
            size_t n = o.rev == 3 && i % 2 == static_cast<uint64_t>(w) ? static_cast<size_t>(r.range(65530, 140000)) : static_cast<size_t>(r.range(30000, 65535));
            v.assign(n, string(32, '\x5a'));
            for (size_t k = 0; k < n; ++k)
                memcpy(&v[k][7], &k, sizeof k);
            x.gh1[static_cast<size_t>(30 + w)] = '\xff';
            if (o.rev == 3)
                pb(x.gh2, w ? 27 : 5, 3, n);
            else
                pb(x.gh2, w ? 7 : 5, 2, n);
        }
        c.count("tens_of_thousands_of_blocks");
        run(f, "many-blocks");
    });
    // channel counts up to the limit of the field, with traces that hold no samples
    c.cases("many-channels", c.scaled(8, 60), [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = i % 2 ? 3 : static_cast<int>(r.range(1, 2));
        o.nrec = 2;
        o.max_ns = 1;
        o.max_ch = 1;
        DFile f = gen_dfile(r, o);
        Rec& x = f.rec[0];
        size_t st = r.below(x.cs.size()), cs = r.below(x.cs[st].size());
        int n = o.rev == 3 ? static_cast<int>(r.range(60000, 140000)) : static_cast<int>(r.range(9000, 9999));
        if (o.rev == 3) {
            pb(x.cs[st][cs], 20, 3, static_cast<uint64_t>(n));
            pb(x.cs[st][cs], 12, 4, 0);
        } else
            set_bcd(x.cs[st][cs], 16, 4, n);
        x.tr.erase(std::remove_if(x.tr.begin(), x.tr.end(), [&](DTr const& t) { return t.st == static_cast<int>(st + 1) && t.cs == static_cast<int>(cs + 1); }), x.tr.end());
        DTr t;
        t.st = static_cast<int>(st + 1);
        t.cs = static_cast<int>(cs + 1);
        t.hdr = string(20, '\0');
        set_bcd(t.hdr, 4, 2, t.st);
        set_bcd(t.hdr, 6, 2, t.cs);
        if (o.rev < 3) {
            t.hdr[9] = 1;
            t.ext.push_back(string(32, '\0'));
        }
        x.tr.insert(x.tr.end(), static_cast<size_t>(n), t);
        c.count("many_channels");
        run(f, "many-channels");
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C15", c15 } }); }
