// C04 monitor
#include "segy_ref.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static void c04(Ctx& c)
{
    c.cases("read", c.scaled(1500, 30000), [&](Rng& r, uint64_t) {
        GenOpt o;
        o.max_traces = 1;
        o.max_ns = 4;
        File f = gen_file(r, o);
        string b = f.bytes(), p = c.path("c04.sgy");
        c.note(f.describe());
        write_file(p, b);
        ISEGY in(p, f.map);
        cmp_bin(f.bh, in.binary_header(), "read/field", f.describe());
        BH h2 = ISEGY::read_binary_header(p);
        cmp_bin(f.bh, h2, "read_binary_header/field", f.describe());
        c.count("fields_compared", 2 * bin_fields().size());
        c.nontrivial(content_sig(f.bin));
        c.sample("read", f.describe());
    });
    c.cases("each-field-alone", bin_fields().size() * 2 * 3, [&](Rng& r, uint64_t i) {
        // one field non-zero at a time pins the offset of every single field
        auto& bfd = bin_fields()[i / 6];
        bool le = i & 1;
        int rev = static_cast<int>(i / 2 % 3);
        BH h {};
        h.endianness = le ? END_LE : 0;
        h.format_code = 8;
        h.fixed_tr_length = 1;
        h.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
        if (!steering(bfd.name))
            bfd.set(h, bfd.kind == 'd' ? f64_enc(-1234.5625) : 0x8182838485868788ULL >> (8 * (8 - bfd.size)));
        BH want = h;
        File f;
        f.text.push_back(string(3200, 'x'));
        f.bin = bin_header_bytes(h, le, h.endianness);
        if (bfd.rev2 && !steering(bfd.name) && rev < 2)
            bfd.set(want, 0);
        string p = c.path("c04.sgy");
        write_file(p, f.bytes());
        ISEGY in(p);
        cmp_bin(want, in.binary_header(), "read/field", fmt("only %s set, rev %d", bfd.name, rev));
        cmp_bin(want, ISEGY::read_binary_header(p), "read_binary_header/field", fmt("only %s set, rev %d", bfd.name, rev));
        c.count("fields_compared", bin_fields().size());
        c.nontrivial(fmt("alone%d", static_cast<int>(i)));
        (void)r;
    });
    c.cases("write", c.scaled(1500, 30000), [&](Rng& r, uint64_t i) {
        int rev = static_cast<int>(i % 3);
        bool le = r.chance(1, 2);
        BH h {};
        for (auto& bfd : bin_fields())
            if (!steering(bfd.name) && r.chance(3, 4))
                bfd.set(h, bfd.kind == 'd' ? f64_enc(static_cast<double>(r.range(-9999999, 9999999)) / 16) : any_bits(r, bfd.size));
        h.endianness = le ? END_LE : (r.chance(1, 2) ? 0 : END_BE);
        bool zero_fmt = r.chance(1, 6);
        h.format_code = static_cast<int16_t>(zero_fmt ? 0 : formats()[r.below(13)].code);
        h.samp_per_tr = static_cast<int16_t>(r.below(50));
        if (r.chance(1, 4) && rev)
            h.ext_samp_per_tr = static_cast<int32_t>(r.below(50)) + 1;
        h.fixed_tr_length = static_cast<int16_t>(rev == 0 ? r.below(2) : r.below(3));
        bool set_rev = r.chance(1, 2);
        h.SEGY_rev_major_ver = static_cast<uint8_t>(set_rev ? rev : 0);
        std::vector<string> text, trl;
        if (r.chance(1, 2))
            for (int k = 0, n = rev ? static_cast<int>(r.chance(1, 12) ? r.range(8, 45) : r.range(1, 3)) : 1; k < n; ++k)
                text.push_back(text_block(r, false));
        if (rev == 2) {
            h.num_of_tr_in_file = r.chance(1, 2) ? any_bits(r, 8) : 0;
            h.byte_off_of_first_tr = r.chance(1, 2) ? 3600 : 0;
            h.max_num_add_tr_headers = r.chance(1, 3) ? 1 : 0;
            if (r.chance(1, 2))
                for (int k = 0, n = static_cast<int>(r.range(1, 3)); k < n; ++k)
                    trl.push_back(text_block(r, false));
            h.num_of_trailer_stanza = r.chance(1, 2) ? static_cast<int32_t>(trl.size()) : 0;
        }
        BH want = h;
        if (zero_fmt)
            want.format_code = static_cast<int16_t>(rev == 0 ? 1 : 5);
        if (rev)
            want.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
        size_t ext = text.empty() ? 0 : text.size() - 1;
        if (rev)
            want.ext_text_headers_num = static_cast<int16_t>(ext);
        if (rev == 2) {
            want.num_of_trailer_stanza = static_cast<int32_t>(trl.size());
            if (want.byte_off_of_first_tr)
                want.byte_off_of_first_tr = 3600 + 3200 * ext;
        }
        string p = c.path("c04w.sgy");
        string tag = fmt("writer rev%d %s fmt=%d", rev, le ? "LE" : "BE", h.format_code);
        c.note(tag);
        int ns = h.ext_samp_per_tr ? h.ext_samp_per_tr : h.samp_per_tr;
        int nt = static_cast<int>(r.below(3));
        {
            auto out = make_writer(rev, p, text, h, trl, CommonSEGY::default_trace_header);
            for (int k = 0; k < nt; ++k) {
                HV hv;
                hv["SAMP_NUM"] = int64_t(ns);
                hv["SAMP_INT"] = int64_t(77);
                Trace t(hv, std::vector<double>(static_cast<size_t>(ns), 0.0));
                out->write_trace(t);
            }
        }
        string b = read_file(p);
        MON_CHECK(b.size() >= 3600, "write/size", "%s: file has %zu bytes", tag.c_str(), b.size());
        string wb = bin_header_bytes(want, le, h.endianness);
        for (auto& bfd : bin_fields())
            MON_CHECK(wb.compare(static_cast<size_t>(bfd.off), static_cast<size_t>(bfd.size), b, static_cast<size_t>(3200 + bfd.off), static_cast<size_t>(bfd.size)) == 0,
                "write/field", "%s: field %s at byte %d stored as %s, expected %s", tag.c_str(), bfd.name, 3200 + bfd.off,
                hex(b, static_cast<size_t>(3200 + bfd.off), static_cast<size_t>(bfd.size)).c_str(), hex(wb, static_cast<size_t>(bfd.off), static_cast<size_t>(bfd.size)).c_str());
        MON_CHECK(wb.compare(96, 4, b, 3296, 4) == 0, "write/byte-order-constant", "%s: byte-order constant stored as %s for %s data, expected %s",
            tag.c_str(), hex(b, 3296, 4).c_str(), le ? "little-endian" : "big-endian", hex(wb, 96, 4).c_str());
        cmp_bytes(wb, b.substr(3200, 400), "write/unassigned", tag);
        c.count("fields_compared", bin_fields().size());
        ISEGY in(p);
        BH rb = want;
        if (rev < 2) // revision-2-only fields of older files read as zero
            for (auto& bfd : bin_fields())
                if (bfd.rev2)
                    bfd.set(rb, 0);
        cmp_bin(rb, in.binary_header(), "readback/field", tag);
        c.nontrivial(content_sig(wb));
        c.sample("write", tag);
    });
    c.cases("derived-from-first-trace", c.scaled(300, 3000), [&](Rng& r, uint64_t i) {
        int rev = static_cast<int>(i % 3);
        string p = c.path("c04z.sgy");
        int ns = static_cast<int>(r.range(1, 200));
        int64_t si = r.range(1, 32767);
        bool dbl = r.chance(1, 2);
        int nt = static_cast<int>(r.range(1, 4));
        {
            auto out = make_writer(rev, p, {}, {}, {}, CommonSEGY::default_trace_header);
            for (int k = 0; k < nt; ++k) {
                int n = rev && k ? static_cast<int>(r.range(1, 200)) : ns;
                HV hv;
                hv["SAMP_NUM"] = int64_t(n);
                if (dbl)
                    hv["SAMP_INT"] = static_cast<double>(k ? r.range(1, 30000) : si);
                else
                    hv["SAMP_INT"] = k ? r.range(1, 30000) : si;
                Trace t(hv, std::vector<double>(static_cast<size_t>(n), 0.0));
                out->write_trace(t);
            }
        }
        BH want {};
        want.samp_per_tr = static_cast<int16_t>(ns);
        want.samp_int = static_cast<int16_t>(si);
        want.format_code = static_cast<int16_t>(rev ? 5 : 1);
        want.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
        ISEGY in(p);
        cmp_bin(want, in.binary_header(), "derived/field", fmt("all-zero header, writer rev %d, first trace ns=%d si=%d", rev, ns, static_cast<int>(si)));
        int n = 0;
        while (in.has_trace()) {
            in.read_trace();
            ++n;
        }
        MON_CHECK(n == nt, "derived/traces", "%d traces read back of %d", n, nt);
        c.count("derived_headers");
        c.nontrivial(fmt("der%d %d %d", rev, ns, static_cast<int>(si)));
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C04", c04 } }); }
