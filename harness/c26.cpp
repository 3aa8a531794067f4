// C26: revision 3 records composed with the building blocks of OSEGD
#include "segd_ref.hpp"
#include "OSEGD.hpp"
#include <algorithm>
using namespace dref;
using sedaman::OSEGD;
using sedaman::Trace;

using Adds = std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>>;
struct Args {
    CS::GeneralHeader gh;
    CS::GeneralHeader2 gh2;
    CS::GeneralHeader3 gh3;
    std::vector<std::vector<CS::ChannelSetHeader>> cs;
    Adds add;
    std::vector<std::vector<char>> extd, extl;
};
// a revision 3 writer as a user would derive it
class W3 : public OSEGD {
public:
    W3(string const& p, Args const& a, ExtMaps const& maps)
        : OSEGD(p, a.gh, a.gh2, a.gh3, a.cs, a.add, a.extd, a.extl, maps)
    {
        assign_raw_writers();
        assign_sample_writers();
        write_general_header1();
        write_general_header2_and_3();
        write_rev3_add_gen_hdrs();
        common().ch_set_hdr_buf.resize(CS::CH_SET_HDR_R3_SIZE);
        size_t skews = static_cast<size_t>(a.gh.skew_blocks == 165 ? a.gh2.extended_skew_blocks : a.gh.skew_blocks);
        for (auto& st : common().channel_sets) {
            for (auto& h : st)
                write_ch_set_hdr(h);
            string z(skews * 32, '\0');
            common().file.write(z.data(), static_cast<std::streamsize>(z.size()));
        }
        for (auto& b : a.extd)
            common().file.write(b.data(), static_cast<std::streamsize>(b.size()));
        for (auto& b : a.extl)
            common().file.write(b.data(), static_cast<std::streamsize>(b.size()));
    }
    void write_trace(Trace& t) override
    {
        check_trace(t);
        write_trace_header(t.header());
        write_ext_trace_headers(t.header());
        write_trace_samples(t);
    }
};
template <class T>
static void put_add(Adds& v, std::optional<T> o)
{
    if (o)
        v.push_back(std::make_shared<T>(*o));
}
static Args args_of(ISEGD& in)
{
    Args a { in.general_header(), *in.general_header2(), *in.general_header3(), in.channel_set_headers(), {}, in.extended_headers(), in.external_headers() };
    put_add(a.add, in.general_header_vessel_crew_id());
    put_add(a.add, in.general_header_survey_name());
    put_add(a.add, in.general_header_client_name());
    put_add(a.add, in.general_header_job_id());
    put_add(a.add, in.general_header_line_id());
    put_add(a.add, in.general_header_vibrator_info());
    put_add(a.add, in.general_header_explosive_info());
    put_add(a.add, in.general_header_airgun_info());
    put_add(a.add, in.general_header_watergun_info());
    put_add(a.add, in.general_header_electromagnetic_info());
    put_add(a.add, in.general_header_other_source_info());
    put_add(a.add, in.general_header_add_source_info());
    put_add(a.add, in.general_header_sou_aux_chan_ref());
    put_add(a.add, in.general_header_sen_info_hdr_ext_blk());
    put_add(a.add, in.general_header_sen_calib_blk());
    put_add(a.add, in.general_header_time_drift_blk());
    put_add(a.add, in.general_header_elemag_src_rec_desc_blk());
    put_add(a.add, in.general_header_position_blk_1());
    put_add(a.add, in.general_header_position_blk_2());
    put_add(a.add, in.general_header_position_blk_3());
    put_add(a.add, in.general_header_coord_ref_blk());
    put_add(a.add, in.general_header_relative_pos_blk());
    put_add(a.add, in.general_header_orient_hdr_blk());
    put_add(a.add, in.general_header_measurement_blk());
    return a;
}
static void zero(string& s, size_t a, size_t b)
{
    for (size_t i = a; i < b; ++i)
        s[i] = 0;
}
// makes of a generated revision 3 record one that has nothing in it but what the library's types can carry
static void canonical(Rng& r, Rec& x, bool mapped)
{
    string& g = x.gh1;
    int e = static_cast<int>(r.below(16)), v = static_cast<int>(r.below(256));
    if (e && v < 128)
        v |= 128;
    set_nib(g, 47, e);
    g[24] = static_cast<char>(v);
    bool erl = nib(g, 51) == 15;
    uint64_t rl = any_bits(r, 4) & 0xffffffff;
    pb(x.gh2, 16, 4, erl ? std::max<uint64_t>(1, rl) : 0);
    zero(x.gh2, 30, 31);
    zero(x.gh3, 30, 31);
    // one block of a kind, in the order of their types
    std::map<int, string> kinds;
    for (auto& b : x.blk) {
        int t = static_cast<unsigned char>(b[31]);
        bool known = true;
        switch (t) {
        case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17: case 0x18: case 0x19:
        case 0x20: case 0x21: case 0x41: case 0x50: case 0x55: case 0x56: break;
        case 0x1f: zero(b, 14, 18); break;
        case 0x43: zero(b, 25, 31); break;
        case 0x44: zero(b, 26, 31); break;
        case 0x45: zero(b, 19, 31); break;
        case 0x51: case 0x52: case 0x60: zero(b, 28, 31); break;
        case 0x61: zero(b, 26, 31); break;
        default: known = false;
        }
        if (known)
            kinds[t] = b;
    }
    x.blk.clear();
    for (auto& k : kinds)
        x.blk.push_back(k.second);
    size_t nb = x.blk.size();
    bool eb = nb + 2 >= 15 || r.chance(1, 4);
    set_nib(g, 22, eb ? 15 : static_cast<int>(nb + 2));
    if (eb)
        pb(x.gh2, 22, 2, nb + 2);
    for (auto& st : x.cs)
        for (auto& s : st) {
            zero(s, 62, 63);
            s[31] = 0x30;
            s[63] = 0x31;
            s[95] = 0x32;
        }
    for (auto& k : x.skew)
        k.assign(k.size(), '\0');
    x.trailer.clear();
    pb(x.gh2, 12, 4, 0);
    for (auto& t : x.tr) {
        uint64_t ffid = r.chance(1, 2) ? r.below(10000) : any_bits(r, 3) & 0xffffff;
        if (ffid > 9999)
            pb(t.hdr, 0, 2, 0xffff);
        else
            set_bcd(t.hdr, 0, 4, static_cast<int64_t>(ffid));
        pb(t.hdr, 17, 3, ffid);
        if (t.cs > 99) {
            t.hdr[3] = '\xff';
            pb(t.hdr, 15, 2, static_cast<uint64_t>(t.cs));
        } else {
            set_bcd(t.hdr, 6, 2, t.cs);
            pb(t.hdr, 15, 2, 0);
        }
        bool echan = !t.ext.empty() && !mapped && r.chance(1, 3);
        if (echan)
            pb(t.hdr, 4, 2, 0xffff);
        else
            set_bcd(t.hdr, 8, 4, static_cast<int64_t>(r.below(10000)));
        for (size_t k = 0; k < t.ext.size(); ++k) {
            string& s = t.ext[k];
            if (mapped)
                continue;
            if (k) {
                s.assign(32, '\0');
                continue;
            }
            pb(s, 0, 3, any_bits(r, 3));
            pb(s, 3, 3, any_bits(r, 3));
            for (int q = 0; q < 2; ++q) {
                pb(s, 10 + 5 * q, 3, ub(s, 3 * q, 3));
                pb(s, 13 + 5 * q, 2, r.chance(1, 2) ? 0 : any_bits(r, 2));
            }
            pb(s, 21, 3, echan ? static_cast<uint64_t>(r.range(10000, r.chance(1, 2) ? 20000 : 0xffffff)) : 0);
            pb(s, 24, 4, t.ns);
            s[29] = 0;
            s[31] = 0x40;
        }
    }
}
static string region(Rec const& x, size_t off)
{
    size_t p = 0;
    string s;
    auto in = [&](string const& name, size_t n) {
        if (!s.empty())
            return;
        if (off < p + n)
            s = name + fmt(" byte %zu", off - p);
        p += n;
    };
    in("general header 1", 32);
    in("general header 2", 32);
    in("general header 3", 32);
    for (auto& b : x.blk)
        in(fmt("block of type 0x%02x", static_cast<unsigned char>(b[31])), 32);
    for (size_t i = 0; i < x.cs.size(); ++i) {
        for (size_t j = 0; j < x.cs[i].size(); ++j)
            in("channel set header", 96);
        in("skew", x.skew[i].size());
    }
    in("extended/external headers", 32 * (x.extd.size() + x.extl.size()));
    for (auto& t : x.tr) {
        in("trace header", 20);
        for (size_t k = 0; k < t.ext.size(); ++k)
            in(fmt("trace header extension %zu", k), 32);
        in("samples", t.samp.size());
    }
    return s.empty() ? "behind the end" : s;
}

static void c26(Ctx& c)
{
    auto one = [&](Rng& r, bool mapped, char const* fam) {
        DGen g;
        g.rev = 3;
        g.nrec = 1;
        g.big = r.chance(1, 8);
        g.max_ns = r.chance(1, 8) ? 300 : 20;
        g.code = 0;
        DFile f;
        if (mapped)
            f.maps = rnd_ext_maps(r, static_cast<int>(r.range(1, 3)), r.chance(1, 2), true);
        Rec x = gen_rec(r, g, f.maps, 3);
        canonical(r, x, mapped);
        for (auto& t : x.tr) {
            t.samp = rnd_samples(r, x.code, t.ns, true);
            if (!mapped)
                continue;
            for (size_t k = 0; k < t.ext.size(); ++k) {
                t.ext[k].assign(32, '\0');
                if (k < f.maps.size())
                    for (auto& e : f.maps[k]) {
                        if (e.second.first == "SAMP_NUM")
                            pb(t.ext[k], static_cast<int>(e.first), vt_size(e.second.second), t.ns);
                        else
                            field_enc(e.second.second, &t.ext[k][e.first], false, gen_field_value(r, e.second.second));
                    }
            }
        }
        f.rec = { x };
        string tag = string(fam) + ": " + rec_desc(x);
        c.note(tag);
        string rp = c.path("c26r.sgd"), wp = c.path("c26w.sgd"), want = x.bytes();
        write_file(rp, want);
        {
            ISEGD in(rp, f.maps);
            Args a = args_of(in);
            W3 out(wp, a, f.maps);
            while (in.has_trace()) {
                Trace t = in.read_trace();
                out.write_trace(t);
                if (!in.has_record())
                    break;
            }
        }
        string got = read_file(wp);
        size_t n = std::min(want.size(), got.size()), i = 0;
        while (i < n && want[i] == got[i])
            ++i;
        if (i < n || want.size() != got.size()) {
            string where = region(x, i);
            string key = where.substr(0, where.find(" byte"));
            for (auto& ch : key)
                if (ch == ' ')
                    ch = '_';
            MON_CHECK(false, ("rev3-copy/" + key).c_str(), "%s: copy has %zu bytes, original %zu; first difference in %s: %02x, expected %02x", tag.c_str(), got.size(), want.size(),
                where.c_str(), i < got.size() ? static_cast<unsigned char>(got[i]) : 256, i < want.size() ? static_cast<unsigned char>(want[i]) : 256);
        }
        // and it is what was given when it is read again
        read_and_check(c, f, wp, CK_GEN | CK_CS | CK_SAMP | CK_TRC, tag + " (read back)");
        c.count(string("rev3_records_copied:") + fam);
        for (auto& b : x.blk)
            c.count(fmt("block_kind:%02x", static_cast<unsigned char>(b[31])));
        c.count("bytes_compared", want.size());
        c.count("traces_copied", x.tr.size());
        for (auto& t : x.tr)
            if (!t.ext.empty() && !mapped && ub(t.hdr, 4, 2) == 0xffff)
                c.count("extended_trace_number");
        c.nontrivial(hash_str(want));
        c.sample(fam, tag);
        ::unlink(rp.c_str());
        ::unlink(wp.c_str());
    };
    c.cases("copy", c.scaled(1500, 20000), [&](Rng& r, uint64_t) { one(r, false, "standard-extension"); });
    c.cases("mapped", c.scaled(1000, 15000), [&](Rng& r, uint64_t) { one(r, true, "mapped-extension"); });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C26", c26 } }); }
