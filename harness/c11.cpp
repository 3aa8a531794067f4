// C11 monitor
#include "segy_ref.hpp"
#include "segd_ref.hpp"
#include "OSEGDRev2_1.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static void c11d(Ctx& c);
static void c11(Ctx& c)
{
    // ground files
    GenOpt o;
    o.rev = 1;
    o.allow_custom_map = false;
    o.force_variable = 0;
    o.max_ns = 3;
    Rng r0(4242);
    File base = gen_file(r0, o);
    string rp = c.path("c11.sgy");
    write_file(rp, base.bytes());
    c.cases("mappings", c.scaled(6000, 100000), [&](Rng& r, uint64_t) {
        int target = static_cast<int>(r.below(6)); // 0 ISEGY 1 ISEGY+override 2 sorted 3..5 writers
        int nmaps = static_cast<int>(r.below(4));
        Map m;
        string defect = "none";
        MapOpt mo;
        m = random_map(r, nmaps, mo);
        if (r.chance(1, 6))
            for (auto& e : m)
                e.second.clear(); // empty field lists are fine
        bool valid = true;
        if (nmaps && r.chance(2, 3)) {
            auto& tgt = m[r.below(m.size())];
            switch (r.below(6)) {
            case 0: // name length
                tgt.first = string(r.chance(1, 2) ? r.below(8) : r.range(9, 20), 'n');
                valid = false;
                defect = "name";
                break;
            case 1: { // overlap by a random amount
                if (tgt.second.empty())
                    break;
                auto it = tgt.second.begin();
                std::advance(it, static_cast<long>(r.below(tgt.second.size())));
                int sz = vt_size(it->second.second);
                if (sz < 2)
                    break;
                uint32_t off = it->first + static_cast<uint32_t>(r.range(1, sz - 1));
                tgt.second[off] = { "OVL", VT::uint8_t };
                valid = false;
                defect = fmt("overlap at %u", off);
                break;
            }
            case 2: { // sticks out of the 240 bytes
                VT t = random_vt(r, false);
                uint32_t off = static_cast<uint32_t>(240 - vt_size(t) + 1 + static_cast<int>(r.below(static_cast<uint64_t>(vt_size(t)) + 3)));
                tgt.second.erase(tgt.second.lower_bound(off - 8), tgt.second.end());
                tgt.second[off] = { "OUT", t };
                valid = false;
                defect = fmt("outside at %u", off);
                break;
            }
            case 3: { // huge offsets, including ones whose end wraps around
                VT t = random_vt(r, false);
                uint32_t off = r.chance(1, 2) ? UINT32_MAX - static_cast<uint32_t>(r.below(12)) : static_cast<uint32_t>(r.range(241, UINT32_MAX));
                if (r.chance(1, 2))
                    tgt.second.clear();
                tgt.second[off] = { "FAR", t };
                valid = false;
                defect = fmt("far at %u", off);
                break;
            }
            case 4: { // the only field, right at the edge: valid or just not
                VT t = random_vt(r, false);
                uint32_t off = static_cast<uint32_t>(240 - vt_size(t)) + static_cast<uint32_t>(r.below(2));
                tgt.second.clear();
                tgt.second[off] = { "EDGE", t };
                valid = off + static_cast<uint32_t>(vt_size(t)) <= 240;
                defect = fmt("edge at %u", off);
                break;
            }
            case 5: // first of several fields outside
                tgt.second.clear();
                tgt.second[static_cast<uint32_t>(r.range(233, 400))] = { "A", VT::ieee_double };
                valid = false;
                defect = "single far field";
                break;
            }
        }
        BH bh {};
        bh.format_code = 5;
        bh.samp_per_tr = 3;
        bh.fixed_tr_length = 1;
        bool supplied = target != 0 && target != 2;
        if (supplied && r.chance(1, 2)) {
            bh.SEGY_rev_major_ver = static_cast<uint8_t>(r.below(4));
            bh.max_num_add_tr_headers = static_cast<int32_t>(r.below(4));
            if (bh.SEGY_rev_major_ver > 1 && bh.max_num_add_tr_headers && static_cast<int>(m.size()) - 1 != bh.max_num_add_tr_headers) {
                valid = false;
                defect += " map-count";
            }
        }
        if (nmaps == 0) {
            // a reader may do without any mapping, a writer needs at least one header map
            if (target >= 3) {
                valid = false;
                defect = "no maps";
            }
        }
        string tag = fmt("target %d maps=%d rev=%d nadd=%d defect=%s", target, nmaps, bh.SEGY_rev_major_ver, bh.max_num_add_tr_headers, defect.c_str());
        c.note(tag);
        if (target == 1) { // keep the override consistent with the file
            BH b2 = base.bh;
            b2.SEGY_rev_major_ver = bh.SEGY_rev_major_ver;
            b2.max_num_add_tr_headers = bh.max_num_add_tr_headers;
            b2.ext_text_headers_num = 0;
            bh = b2;
        }
        bool threw = false;
        string msg;
        try {
            if (target == 0)
                ISEGY in(rp, m);
            else if (target == 1)
                ISEGY in(rp, bh, m);
            else if (target == 2) {
                if (!base.tr.empty() && (m.empty() || m[0].second.empty()))
                    return; // nothing to sort by
                ISEGYSorted1D in(rp, m.empty() ? "X" : m[0].second.begin()->second.first, m);
            } else
                make_writer(target - 3, c.path("c11w.sgy"), {}, bh, {}, m);
        } catch (std::exception const& e) {
            threw = true;
            msg = e.what();
        }
        if (valid)
            MON_CHECK(!threw, "valid/refused", "%s refused: %s", tag.c_str(), msg.c_str());
        else
            MON_CHECK(threw, "invalid/accepted", "%s accepted", tag.c_str());
        c.count(valid ? "valid_accepted" : "invalid_refused");
        c.count("defect:" + defect.substr(0, defect.find(" at")));
        uint64_t h = static_cast<uint64_t>(target);
        for (auto& e : m)
            for (auto& x : e.second)
                h = mix(h ^ (x.first * 16 + static_cast<uint64_t>(x.second.second)));
        c.nontrivial(h ^ hash_str(tag));
        c.sample(valid ? "valid" : "invalid", tag);
    });
    c11d(c);
}

// the same for the header extension mappings of SEG-D: fields of one 32 byte block may not overlap or stick out
static void c11d(Ctx& c)
{
    using dref::CS;
    Rng r0(4343);
    dref::DGen g;
    g.rev = 2;
    g.nrec = 1;
    g.canon = true;
    g.zero_descale = true;
    g.code = 8058;
    dref::DFile f = dref::gen_dfile(r0, g);
    string rp = c.path("c11.sgd"), wp = c.path("c11w.sgd");
    write_file(rp, f.bytes());
    sedaman::ISEGD in(rp);
    auto gh = in.general_header();
    auto gh2 = *in.general_header2();
    auto cs = in.channel_set_headers();
    std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>> add;
    for (auto& n : in.general_headerN())
        add.push_back(std::make_shared<CS::GeneralHeaderN>(n));
    auto extd = in.extended_headers();
    auto extl = in.external_headers();
    c.cases("segd", c.scaled(6000, 100000), [&](Rng& r, uint64_t) {
        bool writer = r.chance(1, 2);
        int nmaps = static_cast<int>(r.below(5));
        dref::ExtMaps m(static_cast<size_t>(nmaps));
        int names = 0;
        for (auto& e : m) // dense or sparse, always valid
            for (uint32_t off = static_cast<uint32_t>(r.chance(1, 2) ? 0 : r.below(8));;) {
                VT t = random_vt(r, false);
                if (off + static_cast<uint32_t>(vt_size(t)) > 32 || r.chance(1, 12))
                    break;
                e[off] = { fmt("F%d", names++), t };
                off += static_cast<uint32_t>(vt_size(t)) + static_cast<uint32_t>(r.chance(2, 3) ? 0 : r.below(6));
            }
        bool valid = true;
        string defect = "none";
        if (nmaps && r.chance(2, 3)) {
            auto& tgt = m[r.below(m.size())];
            VT t = random_vt(r, false);
            uint32_t sz = static_cast<uint32_t>(vt_size(t));
            switch (r.below(4)) {
            case 0: { // overlap by a random amount
                if (tgt.empty())
                    break;
                auto it = tgt.begin();
                std::advance(it, static_cast<long>(r.below(tgt.size())));
                int s = vt_size(it->second.second);
                if (s < 2)
                    break;
                uint32_t off = it->first + static_cast<uint32_t>(r.range(1, s - 1));
                tgt[off] = { "OVL", VT::uint8_t };
                valid = false;
                defect = fmt("overlap at %u", off);
                break;
            }
            case 1: { // sticks out of the 32 bytes
                uint32_t off = 32 - sz + 1 + static_cast<uint32_t>(r.below(sz + 3));
                tgt.erase(tgt.lower_bound(off - std::min(off, 8u)), tgt.end());
                tgt[off] = { "OUT", t };
                valid = false;
                defect = fmt("outside at %u", off);
                break;
            }
            case 2: { // huge offsets, including ones whose end wraps around
                uint32_t off = r.chance(1, 2) ? UINT32_MAX - static_cast<uint32_t>(r.below(12)) : static_cast<uint32_t>(r.range(33, UINT32_MAX));
                if (r.chance(1, 2))
                    tgt.clear();
                tgt[off] = { "FAR", t };
                valid = false;
                defect = fmt("far at %u", off);
                break;
            }
            case 3: { // the only field, right at the edge: valid or just not
                uint32_t off = 32 - sz + static_cast<uint32_t>(r.below(2));
                tgt.clear();
                tgt[off] = { "EDGE", t };
                valid = off + sz <= 32;
                defect = fmt("edge at %u", off);
                break;
            }
            }
        }
        string tag = fmt("SEG-D %s maps=%d defect=%s", writer ? "writer" : "reader", nmaps, defect.c_str());
        c.note(tag);
        bool threw = false;
        string msg;
        try {
            if (writer)
                sedaman::OSEGDRev2_1 out(wp, gh, gh2, cs, add, extd, extl, m);
            else
                sedaman::ISEGD i(rp, m);
        } catch (std::exception const& e) {
            threw = true;
            msg = e.what();
        }
        if (valid)
            MON_CHECK(!threw, "segd-valid/refused", "%s refused: %s", tag.c_str(), msg.c_str());
        else
            MON_CHECK(threw, "segd-invalid/accepted", "%s accepted", tag.c_str());
        c.count(valid ? "segd_valid_accepted" : "segd_invalid_refused");
        c.count("segd_defect:" + defect.substr(0, defect.find(" at")));
        uint64_t h = writer;
        for (auto& e : m)
            for (auto& x : e)
                h = mix(h ^ (x.first * 16 + static_cast<uint64_t>(x.second.second)));
        c.nontrivial(h ^ hash_str(tag));
        c.sample(valid ? "segd-valid" : "segd-invalid", tag);
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C11", c11 } }); }
