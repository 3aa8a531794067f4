// C17: iteration over records and traces, trace headers under any extension mapping
#include "segd_ref.hpp"
using namespace dref;

static void c17(Ctx& c)
{
    auto run = [&](DFile const& f, char const* kind, int what) {
        string b = f.bytes(), p = c.path("c17.segd");
        write_file(p, b);
        c.note(kind + (" " + rec_desc(f.rec[0])));
        read_and_check(c, f, p, what, kind);
        size_t n = 0;
        for (auto& r : f.rec) {
            n += r.tr.size();
            if (!r.trailer.empty())
                c.count("records_with_trailer");
        }
        if (n > 1 || f.rec.size() > 1)
            c.nontrivial(b);
        if (!f.maps.empty())
            c.count("files_with_mapping");
        if (f.rec.size() > 1)
            c.count("files_with_several_records");
        c.sample(fmt("%s:rev%d", kind, f.rec[0].rev), rec_desc(f.rec[0]) + fmt(", %zu records, %zu maps", f.rec.size(), f.maps.size()));
    };
    c.cases("random", c.scaled(1800, 40000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.maps = i & 1;
        o.big = i % 9 == 0;
        o.max_ns = 20;
        o.empties = r.chance(1, 3);
        o.nrec = r.chance(1, 10) ? static_cast<int>(r.range(4, 9)) : 0;
        run(gen_dfile(r, o), "random", CK_GEN | CK_CS | CK_TRC | CK_SAMP);
    });
    // many records, many traces, a trailer of more than 4 GB
    c.cases("round-channels", c.scaled(24, 400), [&](Rng& r, uint64_t i) {
        static int const n[] = { 255, 256, 257, 512, 1000, 1024, 768, 100 };
        DGen o;
        o.max_ns = 2;
        o.nrec = static_cast<int>(r.range(1, 2));
        o.maps = r.chance(1, 3);
        o.max_ch = n[i % 8];
        o.round_ch = true;
        run(gen_dfile(r, o), "round-channels", CK_CS | CK_TRC | CK_SAMP);
        c.count("files_with_round_channel_counts");
    });
    c.cases("scale", c.scaled(3, 9), [&](Rng& r, uint64_t i) {
        DGen o;
        o.max_ns = 2;
        if (i % 3 == 0) {
            o.nrec = static_cast<int>(r.range(260, 400));
            o.empties = r.chance(1, 2);
            o.max_ch = 2;
            run(gen_dfile(r, o), "many-records", CK_GEN | CK_CS | CK_TRC | CK_SAMP);
            c.count("scale_files_of_many_records");
        } else if (i % 3 == 1) {
            o.nrec = 1;
            o.max_ch = 9999;
            o.maps = r.chance(1, 2);
            DFile f;
            for (int k = 0; k < 40; ++k) {
                f = gen_dfile(r, o);
                if (f.rec[0].tr.size() > 20000)
                    break;
            }
            run(f, "many-traces", CK_TRC | CK_SAMP);
            c.count("scale_max_traces_of_record", f.rec[0].tr.size());
        } else {
            o.rev = 3;
            o.nrec = 2;
            DFile f = gen_dfile(r, o);
            if (f.rec[0].rev != 3)
                return;
            uint64_t n = ((uint64_t { 1 } << 32) + r.below(uint64_t { 1 } << 28)) / 32;
            for (int k = 0; k < 4; ++k)
                f.rec[0].gh2[static_cast<size_t>(12 + k)] = static_cast<char>(n >> (24 - 8 * k));
            f.rec[0].trailer.clear();
            sref::Sparse s(c.path("c17big.segd"));
            s.put(f.rec[0].bytes());
            s.hole(n * 32);
            s.put(f.rec[1].bytes());
            if (!s.done()) {
                c.count("scale_skipped_no_space");
                return;
            }
            c.note("trailer of " + std::to_string(n * 32) + " bytes, " + rec_desc(f.rec[0]));
            read_and_check(c, f, s.path, CK_GEN | CK_CS | CK_TRC | CK_SAMP, "big-trailer");
            c.count("scale_files_above_4GB");
            c.nontrivial(rec_desc(f.rec[0]) + std::to_string(n));
        }
    });
    // a trace of more than 2^32 bits
    c.cases("huge-trace", c.variant == "rel" ? c.scaled(1, 2) : 0, [&](Rng& r, uint64_t) {
        auto cap = mon::alloc_cap;
        mon::alloc_cap = size_t { 4 } << 30;
        mon::alloc_total_cap = 12ll << 30;
        DGen o;
        o.rev = 3;
        o.nrec = 1;
        o.code = 8058;
        o.max_ns = 5;
        o.max_ch = 1;
        DFile f;
        for (int k = 0; k < 60; ++k) {
            f = gen_dfile(r, o);
            if (f.rec[0].tr.size() > 1 && !f.rec[0].tr[0].ext.empty())
                break;
        }
        Rec& x = f.rec[0];
        if (x.tr.size() < 2 || x.tr[0].ext.empty())
            return;
        uint64_t ns = (uint64_t { 1 } << 27) + 1 + r.below(1000);
        pb(x.tr[0].ext[0], 24, 4, ns);
        sref::Sparse s(c.path("c17huge.segd"));
        string v(4, '\0');
        pb(v, 0, 4, 0x40490fdb);
        s.put(x.head());
        s.put(x.tr[0].hdr);
        for (auto& e : x.tr[0].ext)
            s.put(e);
        s.hole(4 * (ns - 1));
        s.put(v);
        for (size_t k = 1; k < x.tr.size(); ++k)
            s.put(Rec::trace_bytes(x.tr[k]));
        s.put(x.trailer);
        if (!s.done()) {
            c.count("scale_skipped_no_space");
            return;
        }
        string w = fmt("trace of %llu samples, ", static_cast<unsigned long long>(ns)) + rec_desc(x);
        c.note(w);
        {
            ISEGD in(s.path);
            {
                sedaman::Trace t = in.read_trace();
                auto const& d = t.samples();
                MON_CHECK(d.size() == ns, "huge-trace/count", "%s: %zu samples", w.c_str(), d.size());
                MON_CHECK(d[0] == 0 && d[ns / 2] == 0 && d[ns - 2] == 0 && d[ns - 1] == static_cast<double>(0x1.921fb6p1f), "huge-trace/value", "%s: last sample %.17g", w.c_str(), d[ns - 1]);
            }
            for (size_t k = 1; k < x.tr.size(); ++k) {
                MON_CHECK(in.has_trace(), "huge-trace/has_trace", "%s: no trace %zu", w.c_str(), k);
                sedaman::Trace t = in.read_trace();
                cmp_dsamples(x, x.tr[k], t.samples(), "huge-trace/next", w);
            }
            MON_CHECK(!in.has_trace() && !in.has_record(), "huge-trace/end", "%s: does not end", w.c_str());
        }
        mon::alloc_cap = cap;
        c.count("huge_traces");
        c.nontrivial(w);
    });
    // records without traces only
    c.cases("no-traces", c.scaled(100, 2000), [&](Rng& r, uint64_t) {
        DGen o;
        o.no_traces = true;
        o.maps = r.chance(1, 2);
        run(gen_dfile(r, o), "no-traces", CK_TRC);
        c.count("files_without_traces");
    });
    // the built-in mappings, with the sample count where they have it
    c.cases("sercel", c.scaled(120, 3000), [&](Rng& r, uint64_t i) {
        static std::vector<FieldMap> const* ms[] = { &CS::sercel_428xl, &CS::sercel_428, &CS::sercel_408 };
        DFile f;
        f.maps = *ms[i % 3];
        DGen o;
        int rev = static_cast<int>(r.range(2, 3));
        int n = static_cast<int>(r.range(1, 3));
        for (int k = 0; k < n; ++k)
            f.rec.push_back(gen_rec(r, o, f.maps, rev));
        c.count("sercel_files");
        run(f, "sercel", CK_TRC | CK_SAMP);
    });
    // more extension blocks than maps, and the other way round (the missing ones
    // are simply not reported)
    c.cases("extension-count", c.scaled(300, 6000), [&](Rng& r, uint64_t) {
        DGen o;
        DFile f;
        int rev = static_cast<int>(r.range(1, 3));
        int nm = static_cast<int>(r.range(1, 4));
        f.maps = rnd_ext_maps(r, nm, true, false);
        // sample count in the first map so that any number of blocks has it
        bool first = false;
        for (auto& e : f.maps[0])
            first |= e.second.first == "SAMP_NUM";
        Rec x = gen_rec(r, o, f.maps, rev);
        for (auto& t : x.tr) {
            size_t n = first ? r.range(1, nm + 2) : static_cast<size_t>(r.range(nm, nm + 2));
            while (t.ext.size() < n)
                t.ext.push_back(r.bytes(32));
            t.ext.resize(n);
            t.hdr[9] = static_cast<char>(n);
            c.count(n > f.maps.size() ? "more_blocks_than_maps" : n < f.maps.size() ? "fewer_blocks_than_maps" : "as_many_blocks_as_maps");
        }
        f.rec.push_back(x);
        run(f, "extension-count", CK_TRC | CK_SAMP);
    });
    // mappings that are not valid are refused, valid ones (also touching fields) are not
    c.cases("mapping-validity", c.scaled(400, 8000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.nrec = 1;
        o.rev = static_cast<int>(r.range(1, 3));
        o.max_ns = 3;
        ExtMaps m = rnd_ext_maps(r, static_cast<int>(r.range(1, 3)), true, false);
        DFile f;
        f.maps = m;
        f.rec.push_back(gen_rec(r, o, f.maps, o.rev));
        string p = c.path("c17m.segd");
        write_file(p, f.bytes());
        auto& fm = m[r.below(m.size())];
        bool bad = i & 1;
        if (bad) {
            if (r.chance(1, 2) || fm.empty()) {
                VT t = random_vt(r, false);
                while (vt_size(t) < 2)
                    t = random_vt(r, false);
                // starts inside, ends outside, or lies completely outside
                uint32_t off = r.chance(1, 2) ? static_cast<uint32_t>(32 - vt_size(t)) + static_cast<uint32_t>(r.range(1, vt_size(t) - 1)) : static_cast<uint32_t>(r.range(32, 4000000000ll));
                fm.erase(fm.lower_bound(static_cast<uint32_t>(off > 32 ? 32 : off - 0)), fm.end());
                fm[off] = { "OUT", t };
            } else {
                // a field that starts inside another one
                auto it = fm.begin();
                std::advance(it, static_cast<long>(r.below(fm.size())));
                if (vt_size(it->second.second) < 2) {
                    it->second.second = VT::uint16_t;
                    if (it->first + 2 > 32)
                        it->second.second = VT::ieee_double; // out of bounds then
                    else
                        fm[it->first + 1] = { "IN", VT::uint8_t };
                } else
                    fm[it->first + static_cast<uint32_t>(r.range(1, vt_size(it->second.second) - 1))] = { "IN", VT::uint8_t };
            }
        }
        bool threw = false;
        try {
            ISEGD in(p, m);
            if (!bad)
                in.read_trace();
        } catch (std::exception const&) {
            threw = true;
        }
        MON_CHECK(threw == bad, bad ? "mapping/accepted" : "mapping/refused", "an extension mapping that is %s was %s", bad ? "not valid" : "valid", threw ? "refused" : "accepted");
        c.count(bad ? "bad_mappings_refused" : "good_mappings_accepted");
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C17", c17 } }); }
