// C10 monitor
#include "segy_ref.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static void c10(Ctx& c)
{
    c.cases("histories", c.scaled(2000, 40000), [&](Rng& r, uint64_t) {
        int rev = static_cast<int>(r.below(3));
        bool zero = r.chance(1, 3);
        bool var = rev && (zero || r.chance(1, 2));
        bool le = !zero && r.chance(1, 2);
        Fmt f = zero ? fmt_of(rev ? 5 : 1) : formats()[r.below(13)];
        int nadd = rev == 2 && !zero && r.chance(1, 3) ? 1 : 0;
        BH bh {};
        int ns = static_cast<int>(r.range(1, 12));
        if (!zero) {
            bh.format_code = static_cast<int16_t>(f.code);
            bh.endianness = le ? END_LE : 0;
            bh.fixed_tr_length = rev == 0 ? 0 : !var;
            bh.samp_int = 1000;
            if (r.chance(1, 4))
                bh.ext_samp_per_tr = ns;
            else
                bh.samp_per_tr = static_cast<int16_t>(ns);
            bh.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
            bh.max_num_add_tr_headers = nadd;
        }
        std::vector<string> text, trl;
        if (rev && !zero && r.chance(1, 3)) {
            text.push_back(text_block(r, false));
            text.push_back(text_block(r, false));
        }
        if (rev == 2 && !zero && r.chance(1, 3))
            trl.push_back(text_block(r, false));
        string p = c.path("c10.sgy");
        struct Acc { HV h; std::vector<double> s; };
        std::vector<Acc> acc;
        bool first_done = false; // zero mode: a trace has fixed the length
        string hist, tag = fmt("rev%d %s%s fmt%d %s ns=%d nadd=%d", rev, var ? "variable" : "fixed", zero ? " zero-header" : "", f.code, le ? "LE" : "BE", ns, nadd);
        {
            auto out = make_writer(rev, p, text, bh, trl, CommonSEGY::default_trace_header);
            int steps = static_cast<int>(r.range(1, 10));
            for (int k = 0; k < steps; ++k) {
                HV h;
                h["CHAN"] = int64_t(k + 1);
                int cnt = var ? static_cast<int>(r.range(0, 14)) : ns;
                if (zero && !first_done)
                    cnt = static_cast<int>(r.range(1, 14));
                if (zero && !var && first_done)
                    cnt = static_cast<int>(acc[0].s.size());
                h["SAMP_NUM"] = int64_t(cnt);
                h["SAMP_INT"] = int64_t(500);
                int act = cnt;
                bool bad = r.chance(1, 2);
                char kind = 'v';
                if (bad) {
                    int lim = zero && !first_done ? 7 : var ? 4 : 2;
                    switch (r.below(static_cast<uint64_t>(lim))) {
                    case 0: // too many samples
                        act = cnt + static_cast<int>(r.chance(1, 2) ? r.range(1, 3) : r.range(100, 5000));
                        kind = '+';
                        break;
                    case 1: // too few
                        if (cnt == 0)
                            bad = false;
                        else
                            act = static_cast<int>(r.below(static_cast<uint64_t>(cnt)));
                        kind = '-';
                        break;
                    case 2: // sample count header missing
                        h.erase("SAMP_NUM");
                        kind = 'm';
                        break;
                    case 3: // negative / absurd sample count
                        h["SAMP_NUM"] = r.chance(1, 2) ? int64_t(-1 - static_cast<int64_t>(r.below(100))) : (int64_t(1) << 40);
                        kind = 'n';
                        break;
                    case 4: h.erase("SAMP_INT"); kind = 'i'; break;
                    case 5: h["SAMP_INT"] = int64_t(0); kind = '0'; break;
                    case 6: h["SAMP_INT"] = int64_t(40000); kind = 'I'; break;
                    }
                    if (!bad)
                        kind = 'v';
                }
                std::vector<double> s;
                for (int i = 0; i < act; ++i)
                    s.push_back(static_cast<double>((i * 7 + k) % 100));
                Trace t(h, s);
                hist += kind;
                c.note(tag + " history " + hist);
                bool threw = false;
                try {
                    out->write_trace(t);
                } catch (std::exception const&) {
                    threw = true;
                }
                if (bad) {
                    MON_CHECK(threw, fmt("misfit/accepted-%c", kind), "%s: misfitting trace accepted, history %s (declared %d, has %d samples)", tag.c_str(), hist.c_str(), cnt, act);
                    c.count(fmt("misfits_refused:%c", kind));
                } else {
                    MON_CHECK(!threw, "valid/refused", "%s: valid trace refused, history %s", tag.c_str(), hist.c_str());
                    acc.push_back({ h, s });
                    first_done = true;
                    c.count("valid_accepted");
                }
            }
        }
        ISEGY in(p);
        for (size_t i = 0; i < acc.size(); ++i) {
            MON_CHECK(in.has_trace(), "file/trace-lost", "%s: accepted trace %zu missing, history %s", tag.c_str(), i, hist.c_str());
            Trace t = in.read_trace();
            auto ch = t.header().get("CHAN");
            MON_CHECK(ch && inum(*ch) == inum(acc[i].h["CHAN"]), "file/trace-order", "%s: trace %zu has CHAN %s, history %s", tag.c_str(), i, ch ? show(*ch).c_str() : "absent", hist.c_str());
            cmp_samples(acc[i].s, t.samples(), "file/samples", tag + " history " + hist);
        }
        MON_CHECK(!in.has_trace(), "file/extra", "%s: file holds more than the accepted traces, history %s", tag.c_str(), hist.c_str());
        cmp_blocks(trl, in.trailer_stanzas(), "file/trailers", tag);
        c.nontrivial(tag + hist);
        c.sample("history", hist + " on " + tag);
    });
    // limits of what a file can describe: sample counts around the limit of the
    // field that stores them, first traces at the limits of the binary header
    c.cases("limits", c.scaled(700, 8000), [&](Rng& r, uint64_t) {
        using VT = Trace::Header::ValueType;
        static const struct { VT t; int64_t max; } types[] = {
            { VT::int8_t, 127 }, { VT::uint8_t, 255 }, { VT::int16_t, 32767 }, { VT::uint16_t, 65535 },
            { VT::int24_t, 8388607 }, { VT::uint24_t, 16777215 }, { VT::int32_t, INT32_MAX },
            { VT::uint32_t, UINT32_MAX }, { VT::int64_t, INT64_MAX }, { VT::uint64_t, INT64_MAX } };
        bool zero = r.chance(1, 2);
        int rev = zero ? static_cast<int>(r.below(3)) : static_cast<int>(r.range(1, 2));
        int nadd = rev == 2 && !zero && r.chance(1, 2) ? static_cast<int>(r.range(1, 2)) : 0;
        BH bh {};
        Map m = CommonSEGY::default_trace_header;
        int64_t lim = nadd ? INT32_MAX : 32767;
        if (!zero) {
            bh.format_code = 8;
            bh.samp_int = 1000;
            bh.samp_per_tr = 4;
            bh.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
            bh.max_num_add_tr_headers = nadd;
            if (nadd == 2 || r.chance(3, 4)) {
                auto& ty = types[r.below(10)];
                lim = ty.max;
                if (nadd && r.chance(1, 2)) { // last of the additional headers holds it
                    auto& t0 = types[r.below(4)];
                    m = { { "mainhead", { { 0, { "CHAN", VT::int32_t } }, { 114, { "SAMP_NUM", t0.t } } } } };
                    if (nadd == 2)
                        m.push_back({ "midheadr", { { 8, { "X", VT::int16_t } } } });
                    m.push_back({ "lasthead", { { static_cast<uint32_t>(r.below(225)), { "SAMP_NUM", ty.t } } } });
                } else {
                    m = { { "mainhead", { { 0, { "CHAN", VT::int32_t } }, { 100, { "SAMP_INT", VT::int16_t } }, { static_cast<uint32_t>(r.range(110, 232)), { "SAMP_NUM", ty.t } } } } };
                    for (int i = 0; i < nadd; ++i)
                        m.push_back({ "emptyhd" + std::to_string(i), {} });
                    // a map beyond the additional headers of this file does not count
                    if (!nadd && r.chance(1, 3))
                        m.push_back({ "unusedhd", { { 8, { "SAMP_NUM", types[r.below(10)].t } } } });
                }
            }
        }
        string p = c.path("c10l.sgy");
        struct Acc { int64_t chan; std::vector<double> s; };
        std::vector<Acc> acc;
        string hist, tag = fmt("rev%d %s nadd=%d field limit %lld", rev, zero ? "zero-header" : "variable", nadd, static_cast<long long>(lim));
        double want_int = 0;
        int64_t want_ns = 0;
        {
            auto out = make_writer(rev, p, {}, bh, {}, m);
            int steps = static_cast<int>(r.range(1, 4));
            for (int k = 0; k < steps; ++k) {
                bool first = zero && acc.empty();
                int64_t cnt;
                int64_t top = lim > 70000 ? 70000 : lim;
                switch (r.below(7)) {
                case 0: cnt = top; break;
                case 1: cnt = top + 1; break;
                case 2: cnt = top - 1; break;
                case 3: cnt = top + r.range(2, 40000); break;
                case 4: cnt = 65536 + r.range(-1, 20); break;
                case 5: cnt = r.range(0, 300); break;
                default: cnt = 32767 + r.range(-1, 1); break;
                }
                if (cnt == 0 && first)
                    cnt = 1;
                HV h;
                h["CHAN"] = int64_t(k + 1);
                h["SAMP_NUM"] = cnt;
                bool ok = cnt <= lim;
                // rev 0 files have traces of one length
                if (zero && rev == 0 && !first)
                    ok = static_cast<size_t>(cnt) == acc[0].s.size();
                if (first && cnt > 32767)
                    ok = false;
                Value si = int64_t(500);
                if (r.chance(1, 2)) {
                    static const double good[] = { 1, 32767, 2.5, 1.999, 32766.5, 4000 };
                    static const double bad[] = { 0, 0.5, 0.99999999, -1, -500, 32768, 32767.001, 65537, 1e300, -1e300, INFINITY, NAN };
                    bool b = first && r.chance(1, 2);
                    double d = b ? bad[r.below(12)] : good[r.below(6)];
                    if (d == std::floor(d) && std::fabs(d) < 1e9 && r.chance(1, 2))
                        si = static_cast<int64_t>(d);
                    else
                        si = d;
                    if (b)
                        ok = false;
                }
                h["SAMP_INT"] = si;
                std::vector<double> s(static_cast<size_t>(cnt));
                for (size_t i = 0; i < s.size(); ++i)
                    s[i] = static_cast<double>((i * 7 + static_cast<size_t>(k)) % 100);
                Trace t(h, s);
                hist += fmt(" %lld/%s%s", static_cast<long long>(cnt), show(si).c_str(), ok ? "" : "!");
                c.note(tag + " history" + hist);
                bool threw = false;
                try {
                    out->write_trace(t);
                } catch (std::exception const&) {
                    threw = true;
                }
                if (!ok) {
                    MON_CHECK(threw, "limits/accepted", "%s: trace the file can not describe was accepted, history (count/interval, ! = impossible)%s", tag.c_str(), hist.c_str());
                    c.count("limits_refused");
                } else {
                    MON_CHECK(!threw, "limits/refused", "%s: valid trace refused, history%s", tag.c_str(), hist.c_str());
                    if (first) {
                        want_int = std::trunc(std::holds_alternative<int64_t>(si) ? static_cast<double>(std::get<int64_t>(si)) : std::get<double>(si));
                        want_ns = cnt;
                    }
                    acc.push_back({ k + 1, s });
                    c.count("limits_accepted");
                }
            }
        }
        if (zero && acc.empty())
            return;
        ISEGY in(p, m);
        if (zero) {
            MON_CHECK(in.binary_header().samp_per_tr == want_ns && in.binary_header().samp_int == want_int, "limits/bin-header", "%s: binary header says %d samples, interval %d; first trace had %lld, %g; history%s",
                tag.c_str(), in.binary_header().samp_per_tr, in.binary_header().samp_int, static_cast<long long>(want_ns), want_int, hist.c_str());
        }
        for (size_t i = 0; i < acc.size(); ++i) {
            MON_CHECK(in.has_trace(), "limits/trace-lost", "%s: accepted trace %zu missing, history%s", tag.c_str(), i, hist.c_str());
            Trace t = in.read_trace();
            auto ch = t.header().get("CHAN");
            MON_CHECK(ch && inum(*ch) == acc[i].chan, "limits/trace-order", "%s: trace %zu has CHAN %s, history%s", tag.c_str(), i, ch ? show(*ch).c_str() : "absent", hist.c_str());
            cmp_samples(acc[i].s, t.samples(), "limits/samples", tag + " history" + hist);
        }
        MON_CHECK(!in.has_trace(), "limits/extra", "%s: file holds more than the accepted traces, history%s", tag.c_str(), hist.c_str());
        c.nontrivial(tag + hist);
        c.sample("limits", tag + hist);
    });
    c.cases("bad-construction", c.scaled(200, 2000), [&](Rng& r, uint64_t) {
        int rev = static_cast<int>(r.below(3));
        BH bh {};
        bh.format_code = 5;
        bh.samp_per_tr = 3;
        bh.fixed_tr_length = 1;
        std::vector<string> text { text_block(r, false) }, trl;
        string what;
        switch (r.below(rev == 2 ? 5 : 4)) {
        case 0: {
            static int bad[] = { 4, 13, 14, 17, -3, 300 };
            bh.format_code = static_cast<int16_t>(bad[r.below(6)]);
            what = "format";
            break;
        }
        case 1:
            bh.endianness = static_cast<int32_t>(r.u64() | 1);
            if (bh.endianness == END_LE || bh.endianness == END_BE)
                bh.endianness = 5;
            what = "endianness";
            break;
        case 2: text[0].resize(r.chance(1, 2) ? 3199 : 3201, 'x'); what = "text size"; break;
        case 3:
            if (rev == 0)
                text[0] = string(r.range(1, 3199), 'q');
            else
                text.push_back(string(r.chance(1, 2) ? r.below(3200) : 3201, 'q'));
            what = "second text size";
            break;
        case 4: trl.push_back(string(r.chance(1, 2) ? r.below(3200) : 3201, 'q')); what = "trailer size"; break;
        }
        bool threw = false;
        try {
            auto out = make_writer(rev, c.path("c10b.sgy"), text, bh, trl, CommonSEGY::default_trace_header);
        } catch (std::exception const&) {
            threw = true;
        }
        MON_CHECK(threw, "construct/accepted", "rev %d writer accepted a bad %s", rev, what.c_str());
        c.count("bad_constructions_refused:" + what);
        c.nontrivial(fmt("bc %d %s %d %d", rev, what.c_str(), bh.format_code, bh.endianness));
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C10", c10 } }); }
