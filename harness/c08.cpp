// C08 monitor
#include "segy_ref.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static void c08(Ctx& c)
{
    c.cases("sorted", c.scaled(900, 20000), [&](Rng& r, uint64_t) {
        GenOpt o;
        o.max_ns = 5;
        o.max_traces = 16;
        o.big_ns_den = 0;
        File f = gen_file(r, o);
        // choose a key that the mapping reads for every trace, and give it few distinct values
        std::vector<std::pair<uint32_t, std::pair<string, VT>>> cand;
        for (auto& e : f.map[0].second) {
            bool shadow = e.second.first == "SAMP_NUM" || (e.first >= 113 && e.first < 117);
            for (size_t k = 1; k < f.map.size(); ++k)
                for (auto& e2 : f.map[k].second)
                    shadow |= e2.second.first == e.second.first;
            if (!shadow)
                cand.push_back({ e.first, e.second });
        }
        if (cand.empty())
            return;
        auto key = cand[r.below(cand.size())];
        int distinct = static_cast<int>(r.range(1, 6));
        std::vector<Value> vals;
        for (int i = 0; i < distinct; ++i) {
            Value v = gen_field_value(r, key.second.second);
            vals.push_back(v);
        }
        // keys that compare in unusual ways
        VT kt = key.second.second;
        bool nan = (kt == VT::ieee_single || kt == VT::ieee_double) && r.chance(1, 2);
        if (nan) {
            vals.push_back(Value(std::nan("")));
            if (r.chance(1, 2))
                vals.push_back(Value(-std::nan("")));
            c.count("nan_keys");
        }
        if ((kt == VT::ieee_single || kt == VT::ieee_double) && r.chance(1, 3)) {
            vals.push_back(Value(0.0));
            vals.push_back(Value(-0.0));
            vals.push_back(Value(r.chance(1, 2) ? HUGE_VAL : -HUGE_VAL));
            c.count("signed_zero_keys");
        }
        for (auto& t : f.tr)
            field_enc(key.second.second, &t.hdr[0][key.first], f.le, vals[r.below(vals.size())]);
        string b = f.bytes(), p = c.path("c08.sgy");
        write_file(p, b);
        string kn = key.second.first;
        string tag = f.describe() + fmt(" key %s type %d", kn.c_str(), static_cast<int>(key.second.second));
        c.note(tag);
        bool ov = r.chance(1, 4) && !(f.bh.SEGY_rev_major_ver > 1 && f.nadd && f.map.size() != static_cast<size_t>(f.nadd) + 1);
        std::unique_ptr<ISEGYSorted1D> in;
        if (ov)
            in = std::make_unique<ISEGYSorted1D>(p, kn, f.bh, f.map);
        else
            in = std::make_unique<ISEGYSorted1D>(p, kn, f.map);
        // reference order
        std::vector<size_t> ord(f.tr.size());
        std::vector<HV> hv;
        for (size_t i = 0; i < ord.size(); ++i) {
            ord[i] = i;
            hv.push_back(f.expect_header(f.tr[i]));
        }
        // NaN is after every number
        auto less = [](Value const& a, Value const& b2) {
            if (a.index() == 0)
                return std::get<0>(a) < std::get<0>(b2);
            double x = std::get<1>(a), y = std::get<1>(b2);
            return x < y || (!std::isnan(x) && std::isnan(y));
        };
        std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b2) { return less(hv[a][kn], hv[b2][kn]); });
        std::vector<Value> keys;
        for (size_t i : ord)
            if (keys.empty() || less(keys.back(), hv[i][kn]))
                keys.push_back(hv[i][kn]);
        auto lookups = [&](string const& when) {
            auto got = in->get_keys();
            MON_CHECK(got.size() == keys.size(), "keys/count", "%s %s: %zu keys, expected %zu", tag.c_str(), when.c_str(), got.size(), keys.size());
            for (size_t i = 0; i < keys.size(); ++i)
                MON_CHECK(got[i].index() == keys[i].index() && !less(got[i], keys[i]) && !less(keys[i], got[i]), "keys/value", "%s %s: key %zu is %s, expected %s", tag.c_str(), when.c_str(), i, show(got[i]).c_str(), show(keys[i]).c_str());
            if (keys.empty() || r.chance(1, 5)) { // absent key
                Value absent = r.chance(1, 2) ? Value(int64_t(0x7eadbeefcafeLL)) : Value(0x1.7eadbeefcafep3);
                if (r.chance(1, 3) && !nan)
                    absent = Value(std::nan(""));
                MON_CHECK(in->get_headers(absent).empty() && in->get_traces(absent).empty(), "lookup/absent", "%s %s: traces returned for an absent key", tag.c_str(), when.c_str());
                c.count("absent_lookups");
            }
            if (keys.empty())
                return;
            Value k = keys[r.below(keys.size())];
            std::vector<size_t> grp;
            for (size_t i : ord)
                if (!less(hv[i][kn], k) && !less(k, hv[i][kn]))
                    grp.push_back(i);
            static uint64_t const lots[] = { 1000, 1000, 1ULL << 16, 1ULL << 31, 1ULL << 32, (1ULL << 32) + 1, 1ULL << 63, UINT64_MAX };
            uint64_t maxn = r.chance(1, 3) ? r.below(grp.size() + 2) : lots[r.below(8)];
            size_t want = std::min<uint64_t>(maxn, grp.size());
            if (r.chance(1, 2)) {
                auto hs = maxn == 1000 && r.chance(1, 2) ? in->get_headers(k) : in->get_headers(k, maxn);
                MON_CHECK(hs.size() == want, "lookup/header-count", "%s %s: %zu headers for key %s, expected %zu", tag.c_str(), when.c_str(), hs.size(), show(k).c_str(), want);
                for (size_t i = 0; i < want; ++i)
                    cmp_header(hv[grp[i]], hs[i], "lookup/header", tag + " " + when);
            } else {
                auto ts = maxn == 1000 && r.chance(1, 2) ? in->get_traces(k) : in->get_traces(k, maxn);
                MON_CHECK(ts.size() == want, "lookup/trace-count", "%s %s: %zu traces for key %s, expected %zu", tag.c_str(), when.c_str(), ts.size(), show(k).c_str(), want);
                for (size_t i = 0; i < want; ++i) {
                    cmp_header(hv[grp[i]], ts[i].header(), "lookup/trace-header", tag + " " + when);
                    cmp_samples(f.expect_samples(f.tr[grp[i]]), ts[i].samples(), "lookup/samples", tag + " " + when);
                }
            }
            c.count("lookups");
        };
        if (r.chance(1, 2))
            lookups("before");
        for (size_t i = 0; i < ord.size(); ++i) {
            MON_CHECK(in->has_trace(), "iterate/has_trace", "%s: false after %zu of %zu", tag.c_str(), i, ord.size());
            string w = tag + fmt(" position %zu (file trace %zu)", i, ord[i]);
            if (r.chance(1, 2)) {
                cmp_header(hv[ord[i]], in->read_header(), "iterate/header", w);
            } else {
                Trace t = in->read_trace();
                cmp_header(hv[ord[i]], t.header(), "iterate/trace-header", w);
                cmp_samples(f.expect_samples(f.tr[ord[i]]), t.samples(), "iterate/samples", w);
            }
            c.count("sorted_reads");
            if (r.chance(1, 3))
                lookups(fmt("after %zu", i + 1));
        }
        MON_CHECK(!in->has_trace(), "iterate/has_trace", "%s: true at the end", tag.c_str());
        lookups("end");
        MON_CHECK(!in->has_trace(), "iterate/has_trace", "%s: true at the end after lookups", tag.c_str());
        if (r.chance(1, 3)) {
            for (int k = static_cast<int>(r.range(1, 3)); k; --k) {
                bool threw = false, full = r.chance(1, 2);
                try {
                    if (full)
                        in->read_trace();
                    else
                        in->read_header();
                } catch (std::exception const&) {
                    threw = true;
                }
                MON_CHECK(threw, "end/read-on", "%s: %s behind the last trace returned something", tag.c_str(), full ? "read_trace" : "read_header");
                MON_CHECK(!in->has_trace(), "end/has_trace", "%s: true after reading on behind the last trace", tag.c_str());
                c.count("reads_behind_the_end");
            }
            lookups("behind the end");
        }
        if (f.tr.size() > 1)
            c.nontrivial(content_sig(b));
        else if (f.tr.empty())
            c.count("empty_files");
        c.count(fmt("key_type:%d", static_cast<int>(key.second.second)));
        c.sample("sorted", tag + fmt(" distinct=%zu", keys.size()));
    });
    // more than 65536 traces, groups of more than 65536, more than 4 GB
    // enough traces for a sort to show whether it is stable, in various orders
    c.cases("medium", c.scaled(36, 800), [&](Rng& r, uint64_t i) {
        GenOpt o;
        o.max_traces = o.min_traces = static_cast<int>(r.range(17, r.chance(1, 4) ? 1500 : 150));
        o.max_ns = 2;
        o.big_ns_den = o.many_den = 0;
        o.max_map_headers = 1;
        File f = gen_file(r, o);
        f.map = { { "MAINHEAD", { { 0, { "ID", VT::int32_t } }, { 8, { "KEY", VT::int16_t } }, { 114, { "SAMP_NUM", VT::int16_t } } } } };
        int64_t n = static_cast<int64_t>(f.tr.size());
        std::vector<int64_t> key;
        for (int64_t k = 0; k < n; ++k) {
            int64_t v = 0;
            switch (i % 6) {
            case 0: v = 42; break;
            case 1: v = k & 1; break;
            case 2: v = n - k; break;
            case 3: v = k / 20; break;
            case 4: v = -(k / 20); break;
            default: v = r.range(-3, 3);
            }
            key.push_back(v);
            sref::put(&f.tr[static_cast<size_t>(k)].hdr[0][0], 4, static_cast<uint64_t>(k), f.le);
            sref::put(&f.tr[static_cast<size_t>(k)].hdr[0][8], 2, static_cast<uint64_t>(v), f.le);
        }
        string p = c.path("c08m.sgy"), tag = f.describe();
        write_file(p, f.bytes());
        c.note(tag);
        ISEGYSorted1D in(p, "KEY", f.map);
        std::vector<size_t> ord(key.size());
        for (size_t k = 0; k < ord.size(); ++k)
            ord[k] = k;
        std::stable_sort(ord.begin(), ord.end(), [&](size_t x, size_t y) { return key[x] < key[y]; });
        std::map<int64_t, std::vector<size_t>> grp;
        for (size_t k : ord)
            grp[key[k]].push_back(k);
        auto keys = in.get_keys();
        MON_CHECK(keys.size() == grp.size(), "medium/keys", "%s: %zu keys, expected %zu", tag.c_str(), keys.size(), grp.size());
        size_t j = 0;
        for (auto& g : grp) {
            MON_CHECK(inum(keys[j++]) == g.first, "medium/keys", "%s: wrong key at %zu", tag.c_str(), j);
            auto hs = in.get_headers(Value(g.first));
            MON_CHECK(hs.size() == g.second.size(), "medium/lookup", "%s: %zu headers for a key of %zu traces", tag.c_str(), hs.size(), g.second.size());
            for (size_t k = 0; k < hs.size(); ++k)
                cmp_header(f.expect_header(f.tr[g.second[k]]), hs[k], "medium/lookup-header", tag);
            if (j > 50)
                break;
        }
        for (size_t k : ord) {
            MON_CHECK(in.has_trace(), "medium/has_trace", "%s: false too early", tag.c_str());
            cmp_header(f.expect_header(f.tr[k]), in.read_header(), "medium/order", tag);
        }
        MON_CHECK(!in.has_trace(), "medium/has_trace", "%s: true after the last trace", tag.c_str());
        c.count("files_of_dozens_of_traces");
        c.nontrivial(tag + fmt("%zu", static_cast<size_t>(i)));
    });
    c.cases("scale", c.scaled(3, 9), [&](Rng& r, uint64_t i) {
        if (i % 3 < 2) {
            BigFile b;
            b.variable = i % 3 == 0;
            int64_t m = r.range(3, 40);
            if (!b.make(r, c.path("c08big.sgy"), [&](size_t k) { return static_cast<int64_t>((k * 7919) % static_cast<size_t>(m)) - 2; })) {
                c.count("scale_skipped_no_space");
                return;
            }
            c.note(b.tag);
            ISEGYSorted1D in(b.s->path, "KEY", b.f.map);
            std::map<int64_t, std::vector<size_t>> grp;
            for (size_t k = 0; k < b.f.tr.size(); ++k)
                grp[static_cast<int64_t>((k * 7919) % static_cast<size_t>(m)) - 2].push_back(k);
            auto keys = in.get_keys();
            MON_CHECK(keys.size() == grp.size(), "scale/keys", "%s: %zu keys, expected %zu", b.tag.c_str(), keys.size(), grp.size());
            for (auto& g : grp) {
                if (r.chance(1, 3)) { // a lookup in between
                    auto it = grp.begin();
                    std::advance(it, static_cast<long>(r.below(grp.size())));
                    size_t n = std::min<size_t>(it->second.size(), static_cast<size_t>(r.range(1, 4)));
                    for (size_t k = 0; k < n; ++k)
                        if (b.huge(it->second[k]))
                            n = k;
                    auto ts = in.get_traces(Value(it->first), n);
                    MON_CHECK(ts.size() == n, "scale/lookup", "%s: %zu traces of %zu", b.tag.c_str(), ts.size(), n);
                    for (size_t k = 0; k < n; ++k) {
                        b.check_header(it->second[k], ts[k].header(), "scale/lookup-header", b.tag);
                        b.check_samples(it->second[k], ts[k].samples(), "scale/lookup-samples", b.tag);
                    }
                    auto hs = in.get_headers(Value(it->first));
                    MON_CHECK(hs.size() == it->second.size(), "scale/lookup", "%s: %zu headers of %zu", b.tag.c_str(), hs.size(), it->second.size());
                    for (size_t k = 0; k < hs.size(); ++k)
                        b.check_header(it->second[k], hs[k], "scale/lookup-header", b.tag);
                    c.count("lookups");
                }
                for (size_t k : g.second) {
                    MON_CHECK(in.has_trace(), "scale/has_trace", "%s: false too early", b.tag.c_str());
                    string w = b.tag + fmt(" file trace %zu", k);
                    if (!b.huge(k) && r.chance(1, 40)) {
                        Trace t = in.read_trace();
                        b.check_header(k, t.header(), "scale/trace-header", w);
                        b.check_samples(k, t.samples(), "scale/samples", w);
                    } else
                        b.check_header(k, in.read_header(), "scale/header", w);
                }
            }
            MON_CHECK(!in.has_trace(), "scale/has_trace", "%s: true after the last trace", b.tag.c_str());
            c.count("scale_files_above_4GB");
            c.nontrivial(b.tag);
            c.sample("scale", b.tag);
            return;
        }
        GenOpt o;
        o.max_traces = o.min_traces = static_cast<int>(r.range(66500, 68000));
        o.max_ns = 2;
        o.big_ns_den = o.many_den = 0;
        o.max_map_headers = 1;
        File f = gen_file(r, o);
        f.map = { { "MAINHEAD", { { 0, { "ID", VT::int32_t } }, { 8, { "KEY", VT::int16_t } }, { 114, { "SAMP_NUM", VT::int16_t } } } } };
        bool one = r.chance(1, 2); // nearly all traces have one key, or nearly all keys are distinct
        std::vector<int64_t> key;
        for (size_t k = 0; k < f.tr.size(); ++k) {
            int64_t v = one ? (k % 100 == 7 ? static_cast<int64_t>(k % 30) - 5 : 3) : static_cast<int64_t>((k * 40503) % 65536) - 32768;
            key.push_back(v);
            sref::put(&f.tr[k].hdr[0][0], 4, k, f.le);
            sref::put(&f.tr[k].hdr[0][8], 2, static_cast<uint64_t>(v), f.le);
        }
        string p = c.path("c08.sgy"), tag = f.describe();
        write_file(p, f.bytes());
        c.note(tag);
        ISEGYSorted1D in(p, "KEY", f.map);
        std::vector<size_t> ord(key.size());
        for (size_t k = 0; k < ord.size(); ++k)
            ord[k] = k;
        std::stable_sort(ord.begin(), ord.end(), [&](size_t x, size_t y) { return key[x] < key[y]; });
        std::set<int64_t> ks(key.begin(), key.end());
        auto keys = in.get_keys();
        MON_CHECK(keys.size() == ks.size(), "scale/keys", "%s: %zu keys, expected %zu", tag.c_str(), keys.size(), ks.size());
        size_t j = 0;
        for (int64_t v : ks)
            MON_CHECK(inum(keys[j++]) == v, "scale/keys", "%s: wrong key at %zu", tag.c_str(), j);
        std::vector<size_t> grp;
        int64_t gk = one ? 3 : key[5];
        for (size_t k : ord)
            if (key[k] == gk)
                grp.push_back(k);
        auto hs = in.get_headers(Value(gk));
        MON_CHECK(hs.size() == grp.size(), "scale/lookup", "%s: %zu headers for a key of %zu traces", tag.c_str(), hs.size(), grp.size());
        for (size_t k = 0; k < hs.size(); ++k)
            cmp_header(f.expect_header(f.tr[grp[k]]), hs[k], "scale/lookup-header", tag);
        for (size_t k : ord) {
            MON_CHECK(in.has_trace(), "scale/has_trace", "%s: false too early", tag.c_str());
            if (r.chance(1, 2)) {
                Trace t = in.read_trace();
                cmp_header(f.expect_header(f.tr[k]), t.header(), "scale/trace-header", tag);
                cmp_samples(f.expect_samples(f.tr[k]), t.samples(), "scale/samples", tag);
            } else
                cmp_header(f.expect_header(f.tr[k]), in.read_header(), "scale/header", tag);
        }
        MON_CHECK(!in.has_trace(), "scale/has_trace", "%s: true after the last trace", tag.c_str());
        c.count("scale_files_above_65536_traces");
        c.count(fmt("scale_largest_group_above_65536:%d", grp.size() > 65536));
        c.nontrivial(tag);
        ::unlink(p.c_str());
    });
    c.cases("missing-key", 30, [&](Rng& r, uint64_t) {
        GenOpt o;
        o.max_ns = 3;
        File f = gen_file(r, o);
        if (f.tr.empty())
            return;
        string p = c.path("c08.sgy");
        write_file(p, f.bytes());
        bool threw = false;
        try {
            ISEGYSorted1D in(p, "NO_SUCH_NAME", f.map);
        } catch (std::exception const&) {
            threw = true;
        }
        MON_CHECK(threw, "missing-key/accepted", "sorting by an unmapped name was accepted");
        c.count("missing_key_refused");
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C08", c08 } }); }
