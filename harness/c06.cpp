// C06 monitor
#include "segy_ref.hpp"
#include <sys/file.h>
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static void c06(Ctx& c)
{
    c.cases("histories", c.scaled(2500, 50000), [&](Rng& r, uint64_t i) {
        GenOpt o;
        o.max_ns = 10;
        o.max_traces = 12;
        o.big_ns_den = 150;
        if (i % 3 == 0)
            o.rev = 2;
        File f = gen_file(r, o);
        // make traces distinguishable: unique id in a header the mapping covers
        string b = f.bytes(), p = c.path("c06.sgy");
        write_file(p, b);
        bool ov = r.chance(1, 3);
        string tag = f.describe() + (ov ? " override" : "");
        c.note(tag);
        std::unique_ptr<ISEGY> in;
        // an override must agree with the number of maps for rev 2 (documented restriction)
        if (ov && f.bh.SEGY_rev_major_ver > 1 && f.nadd && f.map.size() != static_cast<size_t>(f.nadd) + 1)
            ov = false;
        if (ov)
            in = std::make_unique<ISEGY>(p, f.bh, f.map);
        else
            in = std::make_unique<ISEGY>(p, f.map);
        string hist;
        for (size_t k = 0; k < f.tr.size(); ++k) {
            for (uint64_t q = r.below(3); q; --q) {
                MON_CHECK(in->has_trace(), "has_trace/false-early", "%s: false before trace %zu, history %s", tag.c_str(), k, hist.c_str());
                hist += 'q';
            }
            HV wh = f.expect_header(f.tr[k]);
            if (r.chance(1, 2)) {
                hist += 'h';
                cmp_header(wh, in->read_header(), "order/header", tag + fmt(" trace %zu history ", k) + hist);
            } else {
                hist += 't';
                Trace t = in->read_trace();
                cmp_header(wh, t.header(), "order/trace-header", tag + fmt(" trace %zu history ", k) + hist);
                cmp_samples(f.expect_samples(f.tr[k]), t.samples(), "order/samples", tag + fmt(" trace %zu history ", k) + hist);
            }
            c.count("reads_checked");
        }
        MON_CHECK(!in->has_trace(), "has_trace/true-late", "%s: true after the last trace, history %s", tag.c_str(), hist.c_str());
        MON_CHECK(!in->has_trace(), "has_trace/true-late", "%s: changes on repetition", tag.c_str());
        for (int k = 0, n = r.chance(1, 3) ? static_cast<int>(r.range(1, 3)) : 0; k < n; ++k) {
            bool threw = false, full = r.chance(1, 2);
            try {
                if (full)
                    in->read_trace();
                else
                    in->read_header();
            } catch (std::exception const&) {
                threw = true;
            }
            MON_CHECK(threw, "end/read-on", "%s: %s behind the last trace returned something, history %s", tag.c_str(), full ? "read_trace" : "read_header", hist.c_str());
            MON_CHECK(!in->has_trace(), "end/has_trace", "%s: true after reading on behind the last trace, history %s", tag.c_str(), hist.c_str());
            c.count("reads_behind_the_end");
        }
        if (ov) {
            BH w = f.bh;
            cmp_bin(w, in->binary_header(), "override/header", tag);
        }
        if (f.tr.size() > 1)
            c.nontrivial(hash_str(hist) ^ content_sig(b));
        c.counters["histories_with:" + string(f.variable ? "variable" : "fixed")]++;
        if (f.nadd)
            c.count("histories_with:additional-headers");
        if (!f.trailers.empty())
            c.count("histories_with:trailers");
        if (f.gap.size())
            c.count("histories_with:gap");
        if (ov)
            c.count("histories_with:override");
        c.sample("history", hist + " on " + tag);
    });
    // one trace of more than 4 GB read in full; about 9 GB of memory, so one process at a time
    c.cases("long-trace", c.variant == "rel" && c.thorough ? 1 : 0, [&](Rng& r, uint64_t) {
        int lock = ::open("/proc/self/exe", O_RDONLY);
        ::flock(lock, LOCK_EX);
        struct Un {
            int fd;
            size_t old = mon::alloc_cap;
            ~Un()
            {
                mon::alloc_cap = old;
                ::close(fd);
            }
        } un { lock };
        string mi(4096, '\0');
        int mf = ::open("/proc/meminfo", O_RDONLY);
        mi.resize(static_cast<size_t>(std::max<ssize_t>(0, ::read(mf, &mi[0], mi.size()))));
        ::close(mf);
        size_t at = mi.find("MemAvailable:");
        if (at == string::npos || strtoull(mi.c_str() + at + 13, nullptr, 10) < 14000000) {
            c.count("long_trace_skipped_no_memory");
            return;
        }
        mon::alloc_cap = size_t { 6 } << 30;
        mon::alloc_total_cap = 12ll << 30;
        GenOpt o;
        o.max_traces = o.min_traces = 1;
        o.rev = 2;
        o.max_ns = 3;
        o.big_ns_den = o.many_den = 0;
        o.fmt_code = 6;
        o.force_variable = 0;
        o.allow_custom_map = o.allow_text = o.allow_gap = o.allow_trailer = o.allow_add = false;
        File f = gen_file(r, o);
        int ns = static_cast<int>(r.range(536870913, 540000000));
        f.bh.samp_per_tr = 0;
        f.bh.ext_samp_per_tr = ns;
        f.bh.num_of_tr_in_file = 0;
        f.bin = bin_header_bytes(f.bh, f.le, f.endian);
        string b = f.bytes(), one(8, '\0');
        size_t head = f.first_trace();
        Sparse s(c.path("c06long.sgy"));
        s.put(b.substr(0, head) + f.tr[0].hdr[0]);
        string tag = fmt("one trace of %d samples ", ns) + f.describe();
        c.note(tag);
        samp_enc(f.f, &one[0], f.le, 11);
        s.put(one);
        s.hole(static_cast<uint64_t>(ns - 2) * 8);
        samp_enc(f.f, &one[0], f.le, 22);
        s.put(one);
        if (!s.done())
            return;
        ISEGY in(s.path, f.map);
        MON_CHECK(in.has_trace(), "long/has_trace", "%s: false before the trace", tag.c_str());
        Trace t = in.read_trace();
        auto const& v = t.samples();
        MON_CHECK(v.size() == static_cast<size_t>(ns), "long/count", "%s: %zu samples", tag.c_str(), v.size());
        size_t bad = 0;
        for (auto d : v)
            bad += d != 0;
        MON_CHECK(bad == 2 && v[0] == 11 && v.back() == 22, "long/samples", "%s: first %g, last %g, %zu not zero", tag.c_str(), v[0], v.back(), bad);
        MON_CHECK(!in.has_trace(), "long/has_trace", "%s: true after the trace", tag.c_str());
        c.count("long_traces");
        c.nontrivial(tag);
    });
    // more than 65536 traces, more than 4 GB
    c.cases("scale", c.scaled(3, 9), [&](Rng& r, uint64_t i) {
        if (i % 3 < 2) {
            BigFile b;
            b.variable = i % 3 == 0;
            b.huge_fixed = c.variant == "rel" && r.chance(1, 2);
            if (!b.make(r, c.path("c06big.sgy"), [](size_t k) { return static_cast<int64_t>(k); })) {
                c.count("scale_skipped_no_space");
                return;
            }
            c.note(b.tag);
            struct Cap {
                size_t old = mon::alloc_cap;
                ~Cap() { mon::alloc_cap = old; }
            } cap;
            mon::alloc_cap = size_t { 3 } << 30;
            mon::alloc_total_cap = 12ll << 30;
            ISEGY in(b.s->path, b.f.map);
            cmp_blocks(b.f.text, in.text_headers(), "scale/text", b.tag);
            cmp_blocks(b.f.trailers, in.trailer_stanzas(), "scale/trailer", b.tag);
            size_t full = 0;
            for (size_t k = 0; k < b.f.tr.size(); ++k) {
                string w = b.tag + fmt(" trace %zu", k);
                MON_CHECK(in.has_trace(), "scale/has_trace", "%s: false too early", w.c_str());
                if (b.huge(k))
                    c.count("scale_traces_above_1GB");
                if (!b.huge(k) && (r.chance(1, 40) || k + 1 == b.f.tr.size())) {
                    Trace t = in.read_trace();
                    b.check_header(k, t.header(), "scale/trace-header", w);
                    b.check_samples(k, t.samples(), "scale/samples", w);
                    ++full;
                } else
                    b.check_header(k, in.read_header(), "scale/header", w);
            }
            MON_CHECK(!in.has_trace(), "scale/has_trace", "%s: true after the last trace", b.tag.c_str());
            c.count("scale_files_above_4GB");
            c.count("scale_reads", b.f.tr.size());
            c.nontrivial(b.tag);
            c.sample("scale", b.tag + fmt(" full reads %zu", full));
            return;
        }
        GenOpt o;
        o.max_traces = o.min_traces = static_cast<int>(r.range(65600, 68000));
        o.max_ns = 2;
        o.big_ns_den = 0;
        o.max_map_headers = 1;
        o.many_den = 0;
        File f = gen_file(r, o);
        // a small mapping: the names do not matter here
        f.map = { { "MAINHEAD", { { 4, { "ID", VT::int64_t } }, { 114, { "SAMP_NUM", VT::int16_t } } } } };
        string p = c.path("c06.sgy"), tag = f.describe();
        write_file(p, f.bytes());
        c.note(tag);
        ISEGY in(p, f.map);
        for (size_t k = 0; k < f.tr.size(); ++k) {
            MON_CHECK(in.has_trace(), "scale/has_trace", "%s: false before trace %zu", tag.c_str(), k);
            if (r.chance(1, 2)) {
                Trace t = in.read_trace();
                cmp_header(f.expect_header(f.tr[k]), t.header(), "scale/trace-header", tag);
                cmp_samples(f.expect_samples(f.tr[k]), t.samples(), "scale/samples", tag);
            } else
                cmp_header(f.expect_header(f.tr[k]), in.read_header(), "scale/header", tag);
        }
        MON_CHECK(!in.has_trace(), "scale/has_trace", "%s: true after the last trace", tag.c_str());
        c.count("scale_files_above_65536_traces");
        c.count("scale_reads", f.tr.size());
        c.nontrivial(tag);
        ::unlink(p.c_str());
    });
    c.cases("override-fields", c.scaled(600, 8000), [&](Rng& r, uint64_t) {
        // stored header lies; the caller's override must decide the interpretation
        GenOpt o;
        o.max_ns = 10;
        o.big_ns_den = 0;
        File f = gen_file(r, o);
        if (f.bh.SEGY_rev_major_ver > 1 && f.nadd && f.map.size() != static_cast<size_t>(f.nadd) + 1)
            return;
        BH lie = f.bh;
        for (int k = 0; k < 3; ++k)
            switch (r.below(6)) {
            case 0: lie.format_code = static_cast<int16_t>(formats()[r.below(13)].code); break;
            case 1: lie.samp_per_tr = static_cast<int16_t>(r.u64()); break;
            case 2: lie.ext_samp_per_tr = static_cast<int32_t>(r.below(1000)); break;
            case 3: lie.fixed_tr_length = !lie.fixed_tr_length; break;
            case 4: lie.SEGY_rev_major_ver = static_cast<uint8_t>(r.below(3)); break;
            case 5: lie.max_num_add_tr_headers = static_cast<int32_t>(r.below(4)); break;
            }
        f.bin = bin_header_bytes(lie, f.le, f.endian);
        string p = c.path("c06.sgy");
        write_file(p, f.bytes());
        c.note(f.describe());
        ISEGY in(p, f.bh, f.map);
        cmp_blocks(f.text, in.text_headers(), "override/text", f.describe());
        cmp_blocks(f.trailers, in.trailer_stanzas(), "override/trailer", f.describe());
        for (size_t k = 0; k < f.tr.size(); ++k) {
            MON_CHECK(in.has_trace(), "override/has_trace", "%s trace %zu", f.describe().c_str(), k);
            Trace t = in.read_trace();
            cmp_header(f.expect_header(f.tr[k]), t.header(), "override/trace-header", f.describe());
            cmp_samples(f.expect_samples(f.tr[k]), t.samples(), "override/samples", f.describe());
            c.count("override_reads_checked");
        }
        MON_CHECK(!in.has_trace(), "override/has_trace", "%s at end", f.describe().c_str());
        if (!f.tr.empty())
            c.nontrivial(content_sig(f.bin) ^ 5);
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C06", c06 } }); }
