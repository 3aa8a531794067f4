// C03 monitor
#include "segy_ref.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static void c03(Ctx& c)
{
    c.cases("read-mappings", c.scaled(1500, 30000), [&](Rng& r, uint64_t) {
        GenOpt o;
        o.max_ns = 6;
        o.big_ns_den = 0;
        File f = gen_file(r, o);
        string b = f.bytes(), p = c.path("c03.sgy");
        c.note(f.describe());
        write_file(p, b);
        ISEGY in(p, f.map);
        for (size_t i = 0; i < f.tr.size(); ++i) {
            HV want = f.expect_header(f.tr[i]);
            if (r.chance(1, 2)) {
                auto h = in.read_header();
                cmp_header(want, h, "read/header", f.describe());
            } else {
                auto t = in.read_trace();
                cmp_header(want, t.header(), "read/trace-header", f.describe());
                cmp_header(want, t.header_const(), "read/trace-header", f.describe());
            }
            c.count("fields_compared", want.size());
            for (size_t k = 0; k < f.map.size() && k < f.tr[i].hdr.size(); ++k)
                for (auto& e : f.map[k].second)
                    c.count(fmt("read:type%d:%s", static_cast<int>(e.second.second), f.le ? "LE" : "BE"));
        }
        if (!f.tr.empty())
            c.nontrivial(content_sig(b));
        c.sample("read", f.describe());
    });
    c.cases("default-mapping-is-standard", 60, [&](Rng& r, uint64_t) {
        // the built-in mapping names a few well-known standard positions
        struct K { char const* n; uint32_t off; int size; bool sgn; };
        static K known[] = { { "TRC_SEQ_LINE", 0, 4, 1 }, { "TRC_SEQ_SGY", 4, 4, 1 }, { "FFID", 8, 4, 1 }, { "CHAN", 12, 4, 1 }, { "ESP", 16, 4, 1 },
            { "ENS_NO", 20, 4, 1 }, { "SEQ_NO", 24, 4, 1 }, { "TRACE_ID", 28, 2, 1 }, { "OFFSET", 36, 4, 1 }, { "R_ELEV", 40, 4, 1 }, { "S_ELEV", 44, 4, 1 },
            { "ELEV_SCALAR", 68, 2, 1 }, { "COORD_SCALAR", 70, 2, 1 }, { "SOU_X", 72, 4, 1 }, { "SOU_Y", 76, 4, 1 }, { "REC_X", 80, 4, 1 },
            { "REC_Y", 84, 4, 1 }, { "SAMP_NUM", 114, 2, 1 }, { "SAMP_INT", 116, 2, 1 }, { "YEAR", 156, 2, 1 }, { "DAY", 158, 2, 1 },
            { "CDP_X", 180, 4, 1 }, { "CDP_Y", 184, 4, 1 }, { "INLINE", 188, 4, 1 }, { "XLINE", 192, 4, 1 }, { "SP_NUM", 196, 4, 1 },
            { "SP_NUM_SCALAR", 200, 2, 1 } };
        GenOpt o;
        o.allow_custom_map = false;
        o.allow_add = false;
        o.max_traces = 3;
        File f = gen_file(r, o);
        string p = c.path("c03.sgy");
        write_file(p, f.bytes());
        ISEGY in(p);
        for (auto& t : f.tr) {
            auto h = in.read_header();
            for (auto& k : known) {
                auto v = h.get(k.n);
                int64_t w = gets(t.hdr[0].data() + k.off, k.size, f.le);
                MON_CHECK(v && v->index() == 0 && std::get<0>(*v) == w, "read/default-map", "%s is %s, bytes at %u hold %lld", k.n,
                    v ? show(*v).c_str() : "absent", k.off, static_cast<long long>(w));
                c.count("standard_positions_compared");
            }
        }
    });
    c.cases("write-mappings", c.scaled(1500, 30000), [&](Rng& r, uint64_t) {
        int rev = static_cast<int>(r.below(3));
        bool le = r.chance(1, 2);
        int nadd = rev == 2 && r.chance(2, 3) ? static_cast<int>(r.range(1, 3)) : 0;
        bool var = rev > 0 && r.chance(1, 2);
        Map m;
        bool dflt = r.chance(1, 5) && nadd < 2;
        if (dflt)
            m = CommonSEGY::default_trace_header;
        else {
            MapOpt mo;
            mo.need_samp_num = var;
            m = random_map(r, nadd + 1, mo);
        }
        BH bh {};
        Fmt f = formats()[r.below(formats().size())];
        bh.format_code = static_cast<int16_t>(f.code);
        bh.endianness = le ? END_LE : (r.chance(1, 2) ? 0 : END_BE);
        bh.fixed_tr_length = rev == 0 ? 0 : !var;
        bh.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
        bh.max_num_add_tr_headers = nadd;
        int ns = static_cast<int>(r.below(5));
        bh.samp_per_tr = static_cast<int16_t>(ns);
        bh.samp_int = 500;
        string p = c.path("c03w.sgy");
        std::vector<HV> hs;
        string tag = fmt("rev%d %s nadd=%d %s%s", rev, le ? "LE" : "BE", nadd, var ? "variable" : "fixed", dflt ? " default map" : "");
        c.note(tag);
        {
            auto out = make_writer(rev, p, {}, bh, {}, m);
            int nt = static_cast<int>(r.range(1, 4));
            for (int i = 0; i < nt; ++i) {
                HV h;
                for (auto& mm : m)
                    for (auto& e : mm.second) {
                        if (r.chance(1, 7))
                            continue; // absent: must be stored as zero
                        // a name shared between maps must fit both types: keep it small then
                        bool shared = false;
                        for (auto& m2 : m)
                            for (auto& e2 : m2.second)
                                shared |= &e2 != &e && e2.second.first == e.second.first;
                        h[e.second.first] = shared ? Value(static_cast<int64_t>(r.below(100))) : gen_field_value(r, e.second.second);
                    }
                if (r.chance(1, 2))
                    h["NOT_MAPPED_ANYWHERE"] = int64_t(12345);
                h["SAMP_NUM"] = int64_t(ns);
                Trace t(h, std::vector<double>(static_cast<size_t>(ns), 1.0));
                out->write_trace(t);
                hs.push_back(h);
            }
        }
        string b = read_file(p);
        size_t off = 3600;
        uint64_t sg = 1;
        for (auto& h : hs) {
            for (int k = 0; k <= nadd; ++k) {
                string want = expect_hdr_bytes(m[static_cast<size_t>(k)].second, h, le);
                MON_CHECK(off + 240 <= b.size(), "write/truncated", "%s: header %d missing in file of %zu bytes", tag.c_str(), k, b.size());
                for (auto& e : m[static_cast<size_t>(k)].second) {
                    size_t n = static_cast<size_t>(vt_size(e.second.second));
                    auto it = h.find(e.second.first);
                    MON_CHECK(want.compare(e.first, n, b, off + e.first, n) == 0, fmt("write/type%d", static_cast<int>(e.second.second)),
                        "%s header %d: field %s (%s) at offset %u stored as %s, expected %s", tag.c_str(), k, e.second.first.c_str(),
                        it == h.end() ? "absent" : show(it->second).c_str(), e.first, hex(b, off + e.first, n).c_str(), hex(want, e.first, n).c_str());
                    c.count(fmt("write:type%d:%s", static_cast<int>(e.second.second), le ? "LE" : "BE"));
                }
                cmp_bytes(want, b.substr(off, 240), "write/unmapped-bytes", tag + fmt(" header %d", k));
                sg = mix(sg ^ hash_str(want));
                off += 240;
            }
            off += static_cast<size_t>(ns * f.bytes);
        }
        MON_CHECK(off == b.size(), "write/size", "%s: file has %zu bytes, expected %zu", tag.c_str(), b.size(), off);
        c.nontrivial(sg);
        c.sample("write", tag);
        // and back
        ISEGY in(p, m);
        for (auto& h : hs) {
            HV want;
            for (int k = 0; k <= nadd; ++k)
                for (auto& e : m[static_cast<size_t>(k)].second) {
                    char t[8];
                    auto it = h.find(e.second.first);
                    field_enc(e.second.second, t, le, it == h.end() ? Value(int64_t(0)) : it->second);
                    want[e.second.first] = field_dec(e.second.second, t, le);
                }
            auto t = in.read_trace();
            cmp_header(want, t.header(), "readback/header", tag);
            c.count("fields_read_back", want.size());
        }
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C03", c03 } }); }
