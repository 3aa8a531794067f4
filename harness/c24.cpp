// C24: readers leave files alone, writers only append (plus the binary file header)
#include "segd_ref.hpp"
#include "OSEGDRev2_1.hpp"
#include "ISEGYSorted1D.hpp"
#include <sys/stat.h>
using namespace dref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

struct Snap {
    string bytes;
    struct stat st {};
    explicit Snap(string const& p)
        : bytes(read_file(p))
    {
        ::stat(p.c_str(), &st);
    }
    bool same(Snap const& o) const
    {
        return bytes == o.bytes && st.st_ino == o.st.st_ino && st.st_mtim.tv_sec == o.st.st_mtim.tv_sec && st.st_mtim.tv_nsec == o.st.st_mtim.tv_nsec && st.st_mode == o.st.st_mode;
    }
};
// online monitor of a file that is being written
struct Watch {
    Ctx& c;
    string path, tag;
    size_t head; // everything before the first trace
    size_t mut_lo, mut_hi; // the binary file header may change until the end
    string want; // accepted traces, as the layout stores them
    string prev;
    size_t grew = 0;
    void step(string const& hist)
    {
        string now = read_file(path);
        MON_CHECK(now.size() >= prev.size(), "writer/shrunk", "%s: file shrank from %zu to %zu bytes, history %s", tag.c_str(), prev.size(), now.size(), hist.c_str());
        for (size_t i = 0; i < prev.size(); ++i)
            if (now[i] != prev[i] && !(i >= mut_lo && i < mut_hi))
                MON_CHECK(false, i < head ? "writer/header-changed" : "writer/trace-changed", "%s: stored byte %zu changed from %s to %s, history %s", tag.c_str(), i, hex(prev, i, 1).c_str(),
                    hex(now, i, 1).c_str(), hist.c_str());
        MON_CHECK(now.size() <= head + want.size(), "writer/unaccepted", "%s: %zu bytes stored, %zu accepted, history %s", tag.c_str(), now.size(), head + want.size(), hist.c_str());
        for (size_t i = head; i < now.size(); ++i)
            MON_CHECK(now[i] == want[i - head], "writer/not-the-accepted-traces", "%s: byte %zu of the trace area is %s, accepted %s, history %s", tag.c_str(), i - head, hex(now, i, 8).c_str(),
                hex(want, i - head, 8).c_str(), hist.c_str());
        if (now.size() > prev.size())
            ++grew;
        prev = now;
        c.count("inspections");
        c.count("bytes_inspected", now.size());
    }
    void end(string const& hist, size_t trailer)
    {
        string now = read_file(path);
        MON_CHECK(now.size() == head + want.size() + trailer, "writer/size-at-end", "%s: file has %zu bytes in the end, expected %zu, history %s", tag.c_str(), now.size(), head + want.size() + trailer, hist.c_str());
        string body = now.substr(0, head + want.size());
        std::swap(now, body);
        for (size_t i = 0; i < prev.size(); ++i)
            if (now[i] != prev[i] && !(i >= mut_lo && i < mut_hi))
                MON_CHECK(false, "writer/changed-at-end", "%s: stored byte %zu changed when the writer was closed, history %s", tag.c_str(), i, hist.c_str());
        MON_CHECK(now.compare(head, want.size(), want) == 0, "writer/traces-at-end", "%s: trace area is not the accepted traces, history %s", tag.c_str(), hist.c_str());
    }
};

static void c24(Ctx& c)
{
    c.cases("segy-writer", c.scaled(500, 10000), [&](Rng& r, uint64_t) {
        int rev = static_cast<int>(r.below(3));
        bool zero = r.chance(1, 3);
        bool var = rev && (zero || r.chance(1, 2));
        bool le = !zero && r.chance(1, 2);
        Fmt f = zero ? fmt_of(rev ? 5 : 1) : formats()[r.below(13)];
        BH bh {};
        int ns = static_cast<int>(r.chance(1, 4) ? r.range(200, 2500) : r.range(1, 60));
        if (!zero) {
            bh.format_code = static_cast<int16_t>(f.code);
            bh.endianness = le ? END_LE : 0;
            bh.fixed_tr_length = rev == 0 ? 0 : !var;
            bh.samp_int = 1000;
            bh.samp_per_tr = static_cast<int16_t>(ns);
            bh.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
        }
        std::vector<string> text, trl;
        if (rev && !zero && r.chance(1, 3))
            for (uint64_t k = r.range(1, 3); k; --k)
                text.push_back(text_block(r, false));
        if (rev == 2 && !zero && r.chance(1, 3))
            trl.push_back(text_block(r, false));
        string p = c.path("c24.sgy"), hist;
        // an older and longer file under the same name is replaced
        bool older = r.chance(1, 2);
        if (older) {
            write_file(p, r.bytes(r.range(1, 60000)));
            c.count("older_files_replaced");
        } else
            ::unlink(p.c_str());
        Watch w { c, p, fmt("rev%d %s%s fmt%d %s ns=%d text=%zu trailers=%zu", rev, var ? "variable" : "fixed", zero ? " zero-header" : "", f.code, le ? "LE" : "BE", ns, text.size(), trl.size()),
            3600 + 3200 * (text.empty() ? 0 : text.size() - 1), 3200, 3600, {}, {} };
        size_t nacc = 0;
        {
            auto out = make_writer(rev, p, text, bh, trl, CommonSEGY::default_trace_header);
            MON_CHECK(read_file(p).size() <= w.head, "writer/old-content", "%s: %zu bytes in the new file", w.tag.c_str(), read_file(p).size());
            int steps = static_cast<int>(r.range(1, 24));
            int fixed = ns;
            for (int k = 0; k < steps; ++k) {
                int cnt = var ? static_cast<int>(r.range(0, ns)) : fixed;
                if (zero && !nacc)
                    cnt = fixed = std::max(1, static_cast<int>(r.range(1, ns)));
                HV h;
                h["CHAN"] = int64_t(r.below(1u << 30));
                h["FFID"] = int64_t(k + 1);
                h["SAMP_NUM"] = int64_t(cnt);
                h["SAMP_INT"] = int64_t(500);
                bool bad = r.chance(1, 4);
                std::vector<double> s;
                for (int i = 0, n = cnt + (bad ? static_cast<int>(r.range(1, 700)) : 0); i < n; ++i)
                    s.push_back(static_cast<double>(r.below(128)));
                Trace t(h, s);
                bool threw = false;
                try {
                    out->write_trace(t);
                } catch (std::exception const&) {
                    threw = true;
                }
                hist += bad ? 'x' : 'v';
                MON_CHECK(threw == bad, "writer/acceptance", "%s: trace %s, history %s", w.tag.c_str(), threw ? "refused" : "accepted", hist.c_str());
                if (!threw) {
                    string b(240, '\0');
                    string fb = expect_hdr_bytes(CommonSEGY::default_trace_header[0].second, h, le);
                    b.replace(0, fb.size(), fb);
                    string sb(static_cast<size_t>(cnt * f.bytes), '\0');
                    for (int i = 0; i < cnt; ++i)
                        samp_enc(f, &sb[static_cast<size_t>(i * f.bytes)], le, s[static_cast<size_t>(i)]);
                    w.want += b + sb;
                    ++nacc;
                    c.count("accepted");
                } else
                    c.count("refused");
                c.note(w.tag + " history " + hist);
                w.step(hist);
            }
        }
        w.end(hist, 3200 * trl.size());
        if (w.grew)
            c.count("files_inspected_while_growing");
        c.nontrivial(w.want + hist);
        c.sample(fmt("segy rev%d", rev), w.tag + " history " + hist + fmt(", file grew at %zu inspections", w.grew));
    });
    c.cases("segd-writer", c.scaled(400, 8000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        o.int_descale = true;
        o.maps = i & 1;
        o.max_ns = r.chance(1, 4) ? 1500 : 40;
        DFile f = gen_dfile(r, o);
        Rec const& x = f.rec[0];
        string p = c.path("c24i.segd"), q = c.path("c24o.segd"), hist;
        write_file(p, f.bytes());
        if (r.chance(1, 2)) {
            write_file(q, r.bytes(r.range(1, 60000)));
            c.count("older_files_replaced");
        }
        Snap before(p);
        Watch w { c, q, "segd " + rec_desc(x), x.head().size(), 0, 0, {}, {} };
        size_t stop = r.chance(1, 2) ? x.tr.size() : r.below(x.tr.size() + 1);
        {
            ISEGD in(p, f.maps);
            std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>> add;
            for (auto& n : in.general_headerN())
                add.push_back(std::make_shared<CS::GeneralHeaderN>(n));
            sedaman::OSEGDRev2_1 out(q, in.general_header(), *in.general_header2(), in.channel_set_headers(), add, in.extended_headers(), in.external_headers(), f.maps);
            for (size_t k = 0; k < stop; ++k) {
                Trace t = in.read_trace();
                if (r.chance(1, 4)) {
                    Trace b = t;
                    b.header().set("CH_SET_NUM", int64_t(60000));
                    bool threw = false;
                    try {
                        out.write_trace(b);
                    } catch (std::exception const&) {
                        threw = true;
                    }
                    MON_CHECK(threw, "writer/acceptance", "%s: misfitting trace accepted", w.tag.c_str());
                    hist += 'x';
                    c.count("refused");
                    w.step(hist);
                }
                out.write_trace(t);
                DTr const& d = x.tr[k];
                w.want += d.hdr;
                for (auto& e : d.ext)
                    w.want += e;
                w.want += d.samp;
                hist += 'v';
                c.count("accepted");
                w.step(hist);
            }
        }
        w.end(hist, 0);
        MON_CHECK(before.same(Snap(p)), "reader/changed", "%s: the file that was copied changed", w.tag.c_str());
        if (w.grew)
            c.count("files_inspected_while_growing");
        if (stop < x.tr.size())
            c.count("abandoned_records");
        c.nontrivial(w.want + hist);
        c.sample("segd", w.tag + " history " + hist);
    });
    auto damage = [](Rng& r, string b) {
        for (uint64_t k = r.below(4); k && !b.empty(); --k) {
            if (r.chance(1, 3))
                b.resize(r.below(b.size() + 1));
            else
                b[r.below(b.size())] = static_cast<char>(r.u64());
        }
        return b;
    };
    c.cases("segy-reader", c.scaled(900, 18000), [&](Rng& r, uint64_t) {
        GenOpt o;
        o.max_ns = 30;
        o.max_traces = 6;
        o.big_ns_den = 0;
        File f = gen_file(r, o);
        string b = f.bytes(), p = c.path("c24r.sgy");
        bool dmg = r.chance(1, 2);
        if (dmg)
            b = damage(r, b);
        write_file(p, b);
        Snap before(p);
        int mode = static_cast<int>(r.below(4));
        string tag = fmt("mode %d%s ", mode, dmg ? " damaged" : "") + f.describe();
        c.note(tag);
        try {
            std::unique_ptr<ISEGY> in;
            if (mode == 0)
                in = std::make_unique<ISEGY>(p, f.map);
            else if (mode == 1)
                in = std::make_unique<ISEGY>(p, f.bh, f.map);
            else if (mode == 2) {
                auto s = std::make_unique<ISEGYSorted1D>(p, f.map[0].second.empty() ? "CHAN" : f.map[0].second.begin()->second.first, f.map);
                for (auto& k : s->get_keys()) {
                    s->get_headers(k, 2);
                    s->get_traces(k, 2);
                }
                in = std::move(s);
            } else
                ISEGY::read_binary_header(p);
            if (in)
                for (int k = 0; k < 40 && in->has_trace(); ++k) {
                    if (r.chance(1, 3))
                        in->read_header();
                    else {
                        // changing what was read is no business of the file
                        Trace t = in->read_trace();
                        t.header().set("CHAN", int64_t(-5));
                    }
                    c.count("reads");
                    MON_CHECK(before.same(Snap(p)), "reader/changed-while-reading", "%s: the file changed while it was read", tag.c_str());
                }
        } catch (Fail const&) {
            throw;
        } catch (std::exception const&) {
            c.count("readings_with_errors");
        }
        MON_CHECK(before.same(Snap(p)), "reader/changed", "%s: the file changed by reading it", tag.c_str());
        c.count("files_read");
        c.nontrivial(b + fmt("%d", mode));
    });
    c.cases("segd-reader", c.scaled(700, 14000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.maps = i & 1;
        o.max_ns = 20;
        DFile f = gen_dfile(r, o);
        string b = f.bytes(), p = c.path("c24r.segd");
        if (r.chance(1, 2))
            b = damage(r, b);
        write_file(p, b);
        Snap before(p);
        string tag = "segd reader " + rec_desc(f.rec[0]);
        c.note(tag);
        try {
            ISEGD in(p, f.maps);
            for (int k = 0; k < 60 && in.has_record(); ++k) {
                in.read_trace();
                c.count("reads");
            }
        } catch (std::exception const&) {
            c.count("readings_with_errors");
        }
        MON_CHECK(before.same(Snap(p)), "reader/changed", "%s: the file changed by reading it", tag.c_str());
        c.count("files_read");
        c.nontrivial(b);
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C24", c24 } }); }
