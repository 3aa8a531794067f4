// C07 monitor
#include "segy_ref.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static void c07(Ctx& c)
{
    auto copy = [&](Rng& r, GenOpt const& o) {
        File f = gen_file(r, o);
        string b = f.bytes(), p = c.path("c07.sgy"), q = c.path("c07c.sgy");
        c.note(f.describe());
        write_file(p, b);
        {
            ISEGY in(p, f.map);
            // the writer checks the number of maps against the header
            Map m(f.map.begin(), f.map.begin() + std::min<long>(static_cast<long>(f.map.size()), f.nadd ? f.nadd + 1 : static_cast<long>(f.map.size())));
            auto out = make_writer(o.rev, q, in.text_headers(), in.binary_header(), in.trailer_stanzas(), m);
            while (in.has_trace()) {
                Trace t = in.read_trace();
                out->write_trace(t);
                c.count("traces_copied");
            }
        }
        cmp_bytes(b, read_file(q), "copy/bytes", f.describe());
        c.count("bytes_compared", b.size());
        c.count(fmt("copies:rev%d", o.rev));
        c.count(fmt("copies:fmt%d:%s", f.f.code, f.le ? "LE" : "BE"));
        if (!f.tr.empty())
            c.nontrivial(content_sig(b));
        c.sample("copy", f.describe());
    };
    c.cases("scale", c.variant == "rel" ? c.scaled(1, 4) : 0, [&](Rng& r, uint64_t) {
        GenOpt o;
        o.rev = static_cast<int>(r.below(3));
        o.canonical = true;
        o.max_traces = o.min_traces = static_cast<int>(r.range(65537, 66500));
        o.max_ns = 2;
        o.big_ns_den = o.many_den = 0;
        if (o.rev == 0)
            o.allow_text = false;
        copy(r, o);
        c.count("scale_copies");
    });
    c.cases("copy", c.scaled(2000, 40000), [&](Rng& r, uint64_t i) {
        GenOpt o;
        o.rev = static_cast<int>(i % 3);
        o.canonical = true;
        o.max_ns = 30;
        o.big_ns_den = 200;
        if (o.rev == 0)
            o.allow_text = false;
        copy(r, o);
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C07", c07 } }); }
