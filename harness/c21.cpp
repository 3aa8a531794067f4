// C21: histories of construct/copy/move/assign/set over a pool of traces, headers
// and exceptions; after every step every live object is compared with its model.
#include "Exception.hpp"
#include "Trace.hpp"
#include "mon.hpp"
#include <algorithm>
#include <memory>
#include <optional>
#include <unordered_map>
using namespace mon;
using sedaman::Exception;
using sedaman::Trace;
using Header = Trace::Header;
using Value = Header::Value;
using UMap = std::unordered_map<string, Value>;

namespace {
struct MH { // model of a header
    std::map<string, Value> m;
    bool known = true; // false once moved from, until assigned again
};
struct MT {
    MH h;
    vector<double> s;
    bool known = true;
};
bool same(Value const& a, Value const& b)
{
    if (a.index() != b.index())
        return false;
    if (a.index() == 0)
        return std::get<0>(a) == std::get<0>(b);
    double x = std::get<1>(a), y = std::get<1>(b);
    return !memcmp(&x, &y, 8) || (std::isnan(x) && std::isnan(y));
}
string show(Value const& v) { return v.index() == 0 ? fmt("int %" PRId64, std::get<0>(v)) : fmt("dbl %.17g", std::get<1>(v)); }

char const* const names[] = { "CDP", "OFFSET", "", "TRACE_SEQ_LINE", "x", "X", "A name longer than any small string buffer 0123456789", "SAMP_NUM", "K", "K1", "K12" };

void cmp_header(Header const& h, MH const& m, string const& who)
{
    if (!m.known)
        return;
    auto ks = h.keys();
    std::set<string> set(ks.begin(), ks.end());
    MON_CHECK(set.size() == ks.size(), "header/duplicate-key", "%s: keys() repeats a key", who.c_str());
    MON_CHECK(set.size() == m.m.size(), "header/keys", "%s: %zu keys, expected %zu", who.c_str(), set.size(), m.m.size());
    for (auto& e : m.m) {
        MON_CHECK(set.count(e.first), "header/keys", "%s: key '%s' missing from keys()", who.c_str(), e.first.c_str());
        auto v = h.get(e.first);
        MON_CHECK(v.has_value(), "header/get", "%s: '%s' not found", who.c_str(), e.first.c_str());
        MON_CHECK(same(*v, e.second), "header/value", "%s: '%s' is %s, expected %s", who.c_str(), e.first.c_str(), show(*v).c_str(), show(e.second).c_str());
    }
    for (auto n : names)
        if (!m.m.count(n))
            MON_CHECK(!h.get(n), "header/phantom", "%s: '%s' was never set but has a value", who.c_str(), n);
}
void cmp_trace(Trace& t, MT const& m, string const& who)
{
    if (!m.known)
        return;
    cmp_header(t.header(), m.h, who + ".header()");
    cmp_header(t.header_const(), m.h, who + ".header_const()");
    auto& s = t.samples();
    MON_CHECK(s.size() == m.s.size() && (s.empty() || !memcmp(s.data(), m.s.data(), 8 * s.size())), "trace/samples", "%s: samples differ (%zu, expected %zu)", who.c_str(), s.size(), m.s.size());
}
Value rnd_value(Rng& r)
{
    static double const d[] = { 0.0, -0.0, 1.5, -1e300, 5e-324, INFINITY, NAN };
    static int64_t const q[] = { 0, 1, -1, INT64_MAX, INT64_MIN, 1LL << 40 };
    switch (r.below(4)) {
    case 0: return Value(q[r.below(6)]);
    case 1: return Value(d[r.below(7)]);
    case 2: return Value(static_cast<int64_t>(r.u64()));
    default: return Value(static_cast<double>(r.range(-1000, 1000)) / 8);
    }
}
std::map<string, Value> rnd_map(Rng& r)
{
    std::map<string, Value> m;
    for (uint64_t n = r.below(8); n; --n)
        m[names[r.below(std::size(names))]] = rnd_value(r);
    if (r.chance(1, 12))
        for (int i = 0; i < 100; ++i)
            m["F" + std::to_string(i)] = rnd_value(r);
    return m;
}
vector<double> rnd_samples(Rng& r)
{
    vector<double> s(r.chance(1, 6) ? 0 : r.below(r.chance(1, 8) ? 3000 : 12));
    for (auto& x : s)
        x = static_cast<double>(r.range(-1 << 30, 1 << 30)) / 64;
    return s;
}
} // namespace

static void c21(Ctx& c)
{
    c.cases("histories", c.scaled(1500, 60000), [&](Rng& r, uint64_t) {
        constexpr size_t NT = 4, NH = 3;
        std::unique_ptr<Trace> t[NT];
        MT mt[NT];
        std::unique_ptr<Header> h[NH];
        MH mh[NH];
        string hist;
        uint64_t sig = 0;
        int steps = 5 + static_cast<int>(r.below(40));
        for (int k = 0; k < steps; ++k) {
            size_t i = r.below(NT), j = r.below(NT), a = r.below(NH), b = r.below(NH);
            auto op = r.below(22);
            string d;
            switch (op) {
            case 0:
            case 1: { // construct
                MT n;
                n.h.m = rnd_map(r);
                n.s = rnd_samples(r);
                t[i].reset(new Trace(UMap(n.h.m.begin(), n.h.m.end()), n.s));
                mt[i] = n;
                d = fmt("t%zu=new", i);
                break;
            }
            case 2: { // copy construct
                if (!t[j] || i == j || !mt[j].known || !mt[j].h.known) continue;
                std::unique_ptr<Trace> n(new Trace(*t[j]));
                t[i] = std::move(n);
                mt[i] = mt[j];
                d = fmt("t%zu=copy t%zu", i, j);
                break;
            }
            case 3: { // move construct
                if (!t[j] || i == j || !mt[j].known || !mt[j].h.known) continue;
                std::unique_ptr<Trace> n(new Trace(std::move(*t[j])));
                t[i] = std::move(n);
                mt[i] = mt[j];
                mt[j].known = false;
                d = fmt("t%zu=moved t%zu", i, j);
                break;
            }
            case 4:
            case 5: // copy assign, incl. to itself and to a moved-from trace
                if (!t[i] || !t[j] || !mt[j].known || !mt[j].h.known) continue;
                {
                    Trace& res = (*t[i] = *t[j]);
                    MON_CHECK(&res == t[i].get(), "assign/return", "copy assignment of a trace returns something else");
                }
                mt[i] = MT(mt[j]);
                d = fmt("t%zu:=t%zu", i, j);
                c.count(i == j ? "self_assignments" : "assignments");
                break;
            case 6: // move assign, incl. to itself
                if (!t[i] || !t[j] || !mt[j].known || !mt[j].h.known) continue;
                {
                    Trace& src = *t[j];
                    *t[i] = std::move(src);
                }
                if (i != j) {
                    mt[i] = mt[j];
                    mt[j].known = false;
                    c.count("moves");
                } else
                    c.count("self_moves");
                d = fmt("t%zu:=move t%zu", i, j);
                break;
            case 7:
            case 8:
            case 9: { // set a field
                if (!t[i] || !mt[i].known || !mt[i].h.known) continue;
                string n = names[r.below(std::size(names))];
                Value v = rnd_value(r);
                t[i]->header().set(n, v);
                mt[i].h.m[n] = v;
                d = fmt("t%zu[%s]", i, n.c_str());
                c.count("sets");
                break;
            }
            case 10:
                t[i].reset();
                mt[i] = MT();
                d = fmt("~t%zu", i);
                break;
            case 11: {
                MH n;
                n.m = rnd_map(r);
                h[a].reset(new Header(UMap(n.m.begin(), n.m.end())));
                mh[a] = n;
                d = fmt("h%zu=new", a);
                break;
            }
            case 12: { // header out of a trace, by copy
                if (!t[i] || !mt[i].known || !mt[i].h.known) continue;
                h[a].reset(new Header(r.chance(1, 2) ? Header(t[i]->header_const()) : Header(t[i]->header())));
                mh[a] = mt[i].h;
                d = fmt("h%zu=t%zu.h", a, i);
                break;
            }
            case 13: // header out of a trace, by move
                if (!t[i] || !mt[i].known || !mt[i].h.known) continue;
                h[a].reset(new Header(std::move(t[i]->header())));
                mh[a] = mt[i].h;
                mt[i].h.known = false;
                d = fmt("h%zu=move t%zu.h", a, i);
                break;
            case 14: // header into a trace
                if (!t[i] || !mt[i].known || !h[a] || !mh[a].known) continue;
                t[i]->header() = *h[a];
                mt[i].h = mh[a];
                d = fmt("t%zu.h:=h%zu", i, a);
                break;
            case 15:
                if (!t[i] || !mt[i].known || !h[a] || !mh[a].known) continue;
                t[i]->header() = std::move(*h[a]);
                mt[i].h = mh[a];
                mh[a].known = false;
                d = fmt("t%zu.h:=move h%zu", i, a);
                break;
            case 16: // header to header
                if (!h[a] || !h[b] || !mh[b].known) continue;
                {
                    Header& res = (*h[a] = *h[b]);
                    MON_CHECK(&res == h[a].get(), "assign/return", "copy assignment of a header returns something else");
                }
                mh[a] = MH(mh[b]);
                d = fmt("h%zu:=h%zu", a, b);
                c.count(a == b ? "self_assignments" : "assignments");
                break;
            case 17:
                if (!h[a] || !h[b] || !mh[b].known) continue;
                {
                    Header& src = *h[b];
                    *h[a] = std::move(src);
                }
                if (a != b) {
                    mh[a] = mh[b];
                    mh[b].known = false;
                    c.count("moves");
                } else
                    c.count("self_moves");
                d = fmt("h%zu:=move h%zu", a, b);
                break;
            case 18: {
                if (!h[a] || !mh[a].known) continue;
                string n = names[r.below(std::size(names))];
                Value v = rnd_value(r);
                h[a]->set(n, v);
                mh[a].m[n] = v;
                d = fmt("h%zu[%s]", a, n.c_str());
                c.count("sets");
                break;
            }
            case 19: { // header between traces
                if (!t[i] || !t[j] || !mt[i].known || !mt[j].known || !mt[j].h.known) continue;
                t[i]->header() = t[j]->header_const();
                mt[i].h = MH(mt[j].h);
                d = fmt("t%zu.h:=t%zu.h", i, j);
                break;
            }
            case 20: // by value through a container (copies and moves on growth)
            {
                if (!t[i] || !mt[i].known || !mt[i].h.known) continue;
                vector<Trace> v;
                for (int q = 0; q < 5; ++q)
                    v.push_back(*t[i]);
                std::rotate(v.begin(), v.begin() + 2, v.end());
                for (auto& x : v)
                    cmp_trace(x, mt[i], fmt("element copied from t%zu", i));
                v.erase(v.begin());
                std::swap(*t[i], v[1]);
                cmp_trace(v[1], mt[i], "swapped out");
                d = fmt("vector t%zu", i);
                break;
            }
            default: { // swap
                if (!t[i] || !t[j] || i == j || !mt[i].known || !mt[j].known || !mt[i].h.known || !mt[j].h.known) continue;
                std::swap(*t[i], *t[j]);
                std::swap(mt[i], mt[j]);
                d = fmt("swap t%zu t%zu", i, j);
            }
            }
            hist += d + "; ";
            c.note(hist);
            sig = mix(sig ^ hash_str(d));
            c.count("steps");
            for (size_t q = 0; q < NT; ++q)
                if (t[q])
                    cmp_trace(*t[q], mt[q], fmt("after '%s': t%zu", hist.c_str(), q));
            for (size_t q = 0; q < NH; ++q)
                if (h[q])
                    cmp_header(*h[q], mh[q], fmt("after '%s': h%zu", hist.c_str(), q));
        }
        c.nontrivial(sig);
        c.sample("history", hist);
    });
    c.cases("exceptions", c.scaled(1500, 60000), [&](Rng& r, uint64_t) {
        auto txt = [&](size_t maxn) {
            string s(r.below(maxn + 1), ' ');
            for (auto& ch : s)
                ch = static_cast<char>('a' + r.below(26));
            return s;
        };
        static unsigned long long const ls[] = { 0, 1, 42, 4294967296ull, 18446744073709551615ull };
        string f = txt(40), m = txt(200);
        unsigned long long l = r.chance(1, 2) ? ls[r.below(5)] : r.below(5000);
        auto make = [&](bool rv) { // both constructors; the arguments die before the message is read
            if (rv) {
                string f2 = f, m2 = m;
                return std::unique_ptr<Exception>(new Exception(std::move(f2), l, std::move(m2)));
            }
            std::unique_ptr<string> f2(new string(f)), m2(new string(m));
            return std::unique_ptr<Exception>(new Exception(*f2, l, *m2));
        };
        auto e = make(r.chance(1, 2));
        string first = e->what();
        MON_CHECK(first.find(f) != string::npos && first.find(m) != string::npos && first.find(std::to_string(l)) != string::npos, "exception/message", "what() is '%s' for file '%s' line %llu text '%s'", first.c_str(), f.c_str(), l, m.c_str());
        auto ok = [&](char const* w, char const* how) { MON_CHECK(first == w, "exception/copy", "%s: what() became '%s' instead of '%s'", how, w, first.c_str()); };
        string hist;
        for (int k = 1 + static_cast<int>(r.below(8)); k; --k) {
            switch (r.below(6)) {
            case 0: {
                std::unique_ptr<Exception> n(new Exception(static_cast<Exception const&>(*e)));
                ok(e->what(), "source of a copy");
                ok(n->what(), "copy");
                e = std::move(n); // the original is destroyed
                ok(e->what(), "copy after the original died");
                hist += "copy ";
                break;
            }
            case 1: {
                std::unique_ptr<Exception> n(new Exception(std::move(*e)));
                ok(n->what(), "moved");
                e = std::move(n);
                ok(e->what(), "moved, after the source died");
                hist += "move ";
                break;
            }
            case 2:
                try {
                    throw *e;
                } catch (Exception const& x) {
                    ok(x.what(), "caught by reference");
                    ok(e->what(), "thrown original");
                }
                hist += "throw-ref ";
                break;
            case 3:
                try {
                    throw Exception(*e);
                } catch (Exception x) {
                    ok(x.what(), "caught by value");
                }
                hist += "throw-val ";
                break;
            case 4: {
                std::exception_ptr p;
                try {
                    throw Exception(std::move(*e));
                } catch (...) {
                    p = std::current_exception();
                }
                e = make(r.chance(1, 2));
                try {
                    std::rethrow_exception(p);
                } catch (std::exception const& x) {
                    ok(x.what(), "rethrown as std::exception");
                }
                hist += "exception_ptr ";
                break;
            }
            default: {
                vector<Exception> v;
                for (int q = 0; q < 4; ++q)
                    v.emplace_back(*e);
                for (auto& x : v)
                    ok(x.what(), "element of a grown vector");
                hist += "vector ";
            }
            }
            c.count("exception_steps");
        }
        c.nontrivial(hash_str(hist + first));
        c.sample("exception", hist + "'" + first + "'");
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C21", c21 } }); }
