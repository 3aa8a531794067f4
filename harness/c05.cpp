// C05 monitor
#include "segy_ref.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static void c05(Ctx& c)
{
    c.cases("read", c.scaled(1500, 30000), [&](Rng& r, uint64_t i) {
        GenOpt o;
        o.rev = i % 4 == 0 ? 0 : i % 4 == 1 ? 1 : 2;
        o.max_ns = 12;
        o.big_ns_den = 0;
        File f = gen_file(r, o);
        string b = f.bytes(), p = c.path("c05.sgy");
        c.note(f.describe());
        write_file(p, b);
        ISEGY in(p, f.map);
        cmp_blocks(f.text, in.text_headers(), "read/text", f.describe());
        cmp_blocks(f.trailers, in.trailer_stanzas(), "read/trailer", f.describe());
        size_t n = 0;
        while (in.has_trace() && n <= f.tr.size()) {
            Trace t = in.read_trace();
            if (n < f.tr.size())
                cmp_samples(f.expect_samples(f.tr[n]), t.samples(), "read/data", f.describe());
            ++n;
        }
        MON_CHECK(n == f.tr.size(), "read/trace-count", "%s: %zu traces seen", f.describe().c_str(), n);
        cmp_blocks(f.text, in.text_headers(), "read/text-after", f.describe());
        cmp_blocks(f.trailers, in.trailer_stanzas(), "read/trailer-after", f.describe());
        c.count("text_blocks_compared", 2 * f.text.size());
        c.count("trailers_compared", 2 * f.trailers.size());
        if (f.text.size() > 1 || !f.trailers.empty())
            c.nontrivial(content_sig(b));
        c.sample("read", f.describe());
        if (f.bh.num_of_trailer_stanza == -1)
            c.count(f.variable ? "terminated_trailers:variable" : "terminated_trailers:fixed");
        else if (!f.trailers.empty())
            c.count("counted_trailers");
        if (f.text_terminated)
            c.count("terminated_text");
    });
    c.cases("write", c.scaled(900, 20000), [&](Rng& r, uint64_t i) {
        int rev = static_cast<int>(i % 3);
        std::vector<string> text, trl;
        bool dflt = r.chance(1, 4);
        if (!dflt)
            for (int k = 0, n = !rev ? 1 : static_cast<int>(r.chance(1, 20) ? (r.chance(1, 8) ? r.range(250, 300) : r.range(5, 40)) : r.range(1, 4)); k < n; ++k)
                text.push_back(text_block(r, r.chance(1, 10)));
        if (rev == 2 && r.chance(2, 3))
            for (int k = 0, n = static_cast<int>(r.chance(1, 20) ? (r.chance(1, 8) ? r.range(250, 300) : r.range(4, 40)) : r.range(1, 3)); k < n; ++k)
                trl.push_back(text_block(r, r.chance(1, 10)));
        BH bh {};
        bool zero = r.chance(1, 4) && text.size() < 2 && trl.empty();
        bool var = rev && (zero || r.chance(1, 2));
        if (!zero) {
            bh.format_code = static_cast<int16_t>(formats()[r.below(13)].code);
            bh.samp_int = 4;
            bh.fixed_tr_length = !var;
            bh.endianness = r.chance(1, 2) ? END_LE : 0;
            bh.SEGY_rev_major_ver = static_cast<uint8_t>(r.chance(1, 2) ? rev : 0);
            if (rev == 2 && r.chance(1, 3))
                bh.num_of_trailer_stanza = static_cast<int32_t>(r.range(0, 5)); // stale count: the writer must state the truth
            if (rev == 2 && r.chance(1, 3)) // given: the writer must state the true position
                bh.byte_off_of_first_tr = r.chance(1, 2) ? 1 + r.below(9000) : r.u64() | 1;
            if (rev && r.chance(1, 3))
                bh.ext_text_headers_num = static_cast<int16_t>(r.range(0, 5));
        }
        int ns = static_cast<int>(r.range(1, 9));
        bh.samp_per_tr = static_cast<int16_t>(zero ? 0 : ns);
        int nt = static_cast<int>(r.below(4));
        string p = c.path("c05w.sgy");
        string tag = fmt("writer rev%d text=%zu%s trailers=%zu traces=%d %s%s", rev, text.size(), dflt ? "(default)" : "", trl.size(), nt,
            var ? "variable" : "fixed", zero ? " zero-header" : "");
        c.note(tag);
        {
            auto out = make_writer(rev, p, text, bh, trl, CommonSEGY::default_trace_header);
            for (int k = 0; k < nt; ++k) {
                HV hv;
                hv["SAMP_NUM"] = int64_t(ns);
                hv["SAMP_INT"] = int64_t(77);
                hv["CHAN"] = int64_t(k + 1);
                Trace t(hv, std::vector<double>(static_cast<size_t>(ns), 1.0));
                out->write_trace(t);
            }
        }
        string b = read_file(p);
        Fmt f = fmt_of(zero ? (rev ? 5 : 1) : bh.format_code);
        size_t ntext = dflt ? 1 : text.size();
        size_t want_size = 3200 * ntext + 400 + static_cast<size_t>(nt * (240 + ns * f.bytes)) + 3200 * trl.size();
        MON_CHECK(b.size() == want_size, "write/size", "%s: file has %zu bytes, expected %zu", tag.c_str(), b.size(), want_size);
        ISEGY in(p);
        if (dflt) {
            MON_CHECK(in.text_headers().size() == 1, "write/default-count", "%s: %zu text headers", tag.c_str(), in.text_headers().size());
            string t = in.text_headers()[0];
            MON_CHECK(t.size() == 3200, "write/default-size", "%s", tag.c_str());
            if (rev == 0)
                CommonSEGY::ebcdic_to_ascii(t);
            for (int line = 1; line <= 40; ++line) {
                string want = fmt("C%2d", line);
                MON_CHECK(t.compare(static_cast<size_t>(80 * (line - 1)), 3, want) == 0, "write/default-lines", "%s: line %d of the default text header begins '%s', expected '%s'",
                    tag.c_str(), line, t.substr(static_cast<size_t>(80 * (line - 1)), 3).c_str(), want.c_str());
            }
            for (unsigned char ch : t)
                MON_CHECK(ch >= 32 && ch < 127, "write/default-printable", "%s: default text header holds byte %#x", tag.c_str(), ch);
            bool has2 = t.find("REV2.0") != string::npos, has1 = t.find("REV1") != string::npos;
            MON_CHECK(rev == 2 ? has2 : rev == 1 ? has1 && !has2 : !has1 && !has2, "write/default-revision", "%s: default text header names the wrong revision", tag.c_str());
            MON_CHECK(t.find("END TEXTUAL HEADER") != string::npos || t.find("END EBCDIC") != string::npos, "write/default-end", "%s: end line C40 lost", tag.c_str());
            c.count("default_text_headers");
        } else {
            cmp_blocks(text, in.text_headers(), "write/text", tag);
            c.count("text_blocks_read_back", text.size());
        }
        cmp_blocks(trl, in.trailer_stanzas(), "write/trailer", tag);
        c.count("trailers_read_back", trl.size());
        MON_CHECK(in.binary_header().SEGY_rev_major_ver == rev, "write/revision", "%s: file states revision %d", tag.c_str(), in.binary_header().SEGY_rev_major_ver);
        if (rev)
            MON_CHECK(in.binary_header().ext_text_headers_num == static_cast<int>(ntext) - 1, "write/ext-count", "%s: file states %d extended headers", tag.c_str(), in.binary_header().ext_text_headers_num);
        if (bh.byte_off_of_first_tr)
            MON_CHECK(in.binary_header().byte_off_of_first_tr == 3200 * ntext + 400, "write/first-trace", "%s: file states %llu as position of the first trace, it is %zu", tag.c_str(),
                static_cast<unsigned long long>(in.binary_header().byte_off_of_first_tr), 3200 * ntext + 400);
        int n = 0;
        while (in.has_trace() && n <= nt) {
            Trace t = in.read_trace();
            ++n;
            auto ch = t.header().get("CHAN");
            MON_CHECK(ch && inum(*ch) == n, "write/trace-order", "%s: trace %d has CHAN %s", tag.c_str(), n, ch ? show(*ch).c_str() : "absent");
        }
        MON_CHECK(n == nt, "write/trace-count", "%s: %d traces read back", tag.c_str(), n);
        c.nontrivial(content_sig(b));
        c.sample("write", tag);
    });
    // the count of extended text headers is a 16-bit number
    c.cases("count-limit", c.variant == "rel" ? c.scaled(1, 4) : 0, [&](Rng& r, uint64_t i) {
        int rev = static_cast<int>(r.range(1, 2));
        BH bh {};
        bh.format_code = 3;
        bh.samp_per_tr = 4;
        bh.samp_int = 1000;
        bh.fixed_tr_length = 1;
        if (rev == 2 && r.chance(1, 2))
            bh.byte_off_of_first_tr = 1;
        size_t n = c.thorough && i % 2 ? 32767 : static_cast<size_t>(32768 + r.below(40000) * (i % 2 == 0 && r.chance(1, 2)));
        string p = c.path("c05n.sgy"), blk(3200, ' ');
        std::vector<string> text(n + 1, blk);
        for (size_t k = 0; k <= n; ++k)
            memcpy(&text[k][100], &k, sizeof k);
        string tag = fmt("writer rev%d with %zu extended text headers", rev, n);
        c.note(tag);
        bool threw = false;
        try {
            auto out = make_writer(rev, p, text, bh, {}, CommonSEGY::default_trace_header);
            HV hv;
            hv["CHAN"] = int64_t(5);
            Trace t(hv, { 1, 2, 3, 4 });
            out->write_trace(t);
        } catch (std::exception const&) {
            threw = true;
        }
        if (n > 32767)
            MON_CHECK(threw, "count-limit/accepted", "%s: more than can be counted were accepted", tag.c_str());
        else {
            MON_CHECK(!threw, "count-limit/refused", "%s: refused", tag.c_str());
            ISEGY in(p);
            cmp_blocks(text, in.text_headers(), "count-limit/text", tag);
            Trace t = in.read_trace();
            cmp_samples({ 1, 2, 3, 4 }, t.samples(), "count-limit/samples", tag);
        }
        c.count(n > 32767 ? "too_many_text_headers_refused" : "max_text_headers_read_back");
        ::unlink(p.c_str());
        c.nontrivial(tag);
    });
    // files whose first trace lies far behind the headers, and files with more
    // extended headers or trailer stanzas than small counters hold
    auto big = [&](Rng& r, bool far, uint64_t i) {
        GenOpt o;
        o.rev = 2;
        o.max_ns = 6;
        o.max_traces = 4;
        o.big_ns_den = 0;
        o.many_den = 0;
        o.allow_text = o.allow_gap = o.allow_trailer = false;
        o.allow_add = false;
        File f = gen_file(r, o);
        uint64_t hole = 0;
        if (far) {
            static uint64_t const at[] = { uint64_t { 1 } << 31, uint64_t { 1 } << 32, uint64_t { 5 } << 30, uint64_t { 1 } << 33 };
            hole = at[i % 4] + r.below(100000);
            f.bh.byte_off_of_first_tr = f.first_trace() + hole;
        }
        size_t nt = far ? r.below(3) : static_cast<size_t>(i % 4 ? r.range(32769, 40000) : r.range(65537, 70000));
        if (!far && i % 2) {
            for (size_t k = 0, n = static_cast<size_t>(r.range(20000, 32767)); k < n; ++k) {
                f.text.push_back(string(3200, ' '));
                memcpy(&f.text.back()[200], &k, sizeof k);
            }
            f.bh.ext_text_headers_num = static_cast<int16_t>(f.text.size() - 1);
            nt = r.below(3);
            if (f.bh.byte_off_of_first_tr)
                f.bh.byte_off_of_first_tr = f.first_trace();
        }
        for (size_t k = 0; k < nt; ++k) {
            f.trailers.push_back(string(3200, ' '));
            memcpy(&f.trailers.back()[100], &k, sizeof k);
        }
        f.bh.num_of_trailer_stanza = static_cast<int32_t>(nt);
        if (nt || f.bh.num_of_tr_in_file)
            f.bh.num_of_tr_in_file = f.tr.size();
        f.bin = bin_header_bytes(f.bh, f.le, f.endian);
        string b = f.bytes(), tag = f.describe() + fmt(" first trace %llu", static_cast<unsigned long long>(f.first_trace() + hole));
        size_t head = f.first_trace();
        c.note(tag);
        string p = c.path("c05f.sgy");
        Sparse s(p);
        s.put(b.substr(0, head));
        s.hole(hole);
        s.put(b.substr(head));
        if (!s.done()) {
            c.count("no_room_for_sparse_file");
            return;
        }
        ISEGY in(p, f.map);
        cmp_blocks(f.text, in.text_headers(), "far/text", tag);
        cmp_blocks(f.trailers, in.trailer_stanzas(), "far/trailer", tag);
        MON_CHECK(in.binary_header().byte_off_of_first_tr == f.bh.byte_off_of_first_tr, "far/first-trace", "%s: %llu reported", tag.c_str(),
            static_cast<unsigned long long>(in.binary_header().byte_off_of_first_tr));
        size_t n = 0;
        while (in.has_trace() && n <= f.tr.size()) {
            Trace t = in.read_trace();
            if (n < f.tr.size())
                cmp_samples(f.expect_samples(f.tr[n]), t.samples(), "far/data", tag);
            ++n;
        }
        MON_CHECK(n == f.tr.size(), "far/trace-count", "%s: %zu traces seen", tag.c_str(), n);
        cmp_blocks(f.trailers, in.trailer_stanzas(), "far/trailer-after", tag);
        c.count(far ? "far_first_traces" : i % 2 ? "many_text_headers" : "many_trailer_stanzas");
        c.nontrivial(tag);
        c.sample(far ? "far" : "many", tag);
    };
    c.cases("far-first-trace", c.scaled(20, 400), [&](Rng& r, uint64_t i) { big(r, true, i); });
    c.cases("many-blocks", c.variant == "rel" ? c.scaled(3, 12) : 0, [&](Rng& r, uint64_t i) { big(r, false, i); });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C05", c05 } }); }
