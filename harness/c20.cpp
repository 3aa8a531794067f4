// C20: independence of readers and writers.  Every session ("actor") is a coroutine
// that yields after each call of the library with what the call returned.  Its
// transcript when it runs alone in a fresh process is the reference; the same
// session is then run after others, interleaved with others in one thread, and
// concurrently with others on threads, over memory with other old contents, and
// has to produce the same transcript.  The monitor process itself never calls the
// library, so every run starts from the state a fresh process has.
#include "segd_ref.hpp"
#include "Exception.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGDRev2_1.hpp"
#include <atomic>
#include <coroutine>
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace dref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

struct Co {
    struct promise_type {
        string cur;
        Co get_return_object() { return Co(std::coroutine_handle<promise_type>::from_promise(*this)); }
        std::suspend_always initial_suspend() { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        std::suspend_always yield_value(string s)
        {
            cur = std::move(s);
            return {};
        }
        void return_void() { }
        void unhandled_exception() { std::terminate(); }
    };
    std::coroutine_handle<promise_type> h;
    explicit Co(std::coroutine_handle<promise_type> x) : h(x) { }
    Co(Co&& o) : h(o.h) { o.h = nullptr; }
    Co(Co const&) = delete;
    ~Co()
    {
        if (h)
            h.destroy();
    }
    bool next(string& s)
    {
        h.resume();
        if (h.done())
            return false;
        s = std::move(h.promise().cur);
        return true;
    }
};
template <class F> static string run(F f)
{
    try {
        return f();
    } catch (std::exception const& e) {
        return string("threw ") + e.what();
    }
}
static string ser(Trace::Header const& h)
{
    auto ks = h.keys();
    std::sort(ks.begin(), ks.end());
    string s;
    for (auto& k : ks)
        s += k + "=" + show(*h.get(k)) + ";";
    return s;
}
static string ser(Trace& t)
{
    string s = ser(t.header()) + "|";
    for (double d : t.samples()) {
        uint64_t b = d != d ? 1 : f64_enc(d);
        s.append(reinterpret_cast<char*>(&b), 8);
    }
    return s;
}
static string ser(BH const& h)
{
    string s;
    for (auto& f : bin_fields())
        s += fmt("%lld,", static_cast<long long>(f.get(h)));
    return s;
}

enum What { SEGY_READ, SEGY_SORTED, SEGD_READ, SEGY_WRITE, SEGD_WRITE, NAMES, NWHAT };
static char const* what_name[] = { "segy-reader", "segy-sorted", "segd-reader", "segy-writer", "segd-writer", "names" };
struct Spec {
    int what = 0;
    string in;         // file to read
    bool defaults = false, headers = false, broken = false;
    Map map;           // SEGY
    string key;        // sorted
    std::shared_ptr<DFile> d; // SEGD
    // SEGY writer
    int rev = 0;
    std::vector<string> text, trl;
    BH bh {};
    std::vector<std::pair<HV, std::vector<double>>> tr;
    string desc;
};

static Co segy_read(Spec const& s)
{
    std::unique_ptr<ISEGY> in;
    co_yield run([&] { in = s.defaults ? std::make_unique<ISEGY>(s.in) : std::make_unique<ISEGY>(s.in, s.map); return string("open"); });
    if (!in)
        co_return;
    auto texts = [&] { string t; for (auto& x : in->text_headers()) t += x; for (auto& x : in->trailer_stanzas()) t += x; return t + ser(in->binary_header()); };
    co_yield run(texts);
    int bad = 0;
    for (int k = 0; k < 30 && bad < 3; ++k) {
        bool more = false;
        co_yield run([&] { more = in->has_trace(); return string(more ? "more" : "end"); });
        if (!more)
            break;
        string got = run([&] {
            if (s.headers && k % 2) {
                auto h = in->read_header();
                string t = ser(h);
                h.set("C20", Value(int64_t(k))); // ours, not the reader's
                return t;
            }
            Trace t = in->read_trace();
            string r = ser(t);
            t.header().set("SAMP_NUM", Value(int64_t(77777)));
            return r;
        });
        bad += got.compare(0, 5, "threw") == 0;
        co_yield got;
    }
    co_yield run(texts);
}
static Co segy_sorted(Spec const& s)
{
    std::unique_ptr<ISEGYSorted1D> in;
    co_yield run([&] { in = std::make_unique<ISEGYSorted1D>(s.in, s.key, s.map); return string("open"); });
    if (!in)
        co_return;
    std::vector<Value> ks;
    co_yield run([&] { string t; for (auto& k : in->get_keys()) { ks.push_back(k); t += show(k) + ","; } return t; });
    for (size_t i = 0; i < ks.size() && i < 6; ++i) {
        Value k = ks[i];
        co_yield run([&] { string t; for (auto& x : in->get_headers(k)) t += ser(x) + "\n"; return t; });
        co_yield run([&] { string t; for (auto& x : in->get_traces(k)) { Trace y = x; t += ser(y) + "\n"; } return t; });
    }
    for (int k = 0; k < 20; ++k) {
        bool more = false;
        co_yield run([&] { more = in->has_trace(); return string(more ? "more" : "end"); });
        if (!more)
            break;
        co_yield run([&] { Trace t = in->read_trace(); return ser(t); });
    }
}
static Co segd_read(Spec const& s)
{
    std::unique_ptr<sedaman::ISEGD> in;
    co_yield run([&] { in = std::make_unique<sedaman::ISEGD>(s.in, s.d->maps); return string("open"); });
    if (!in)
        co_return;
    auto dummy = std::make_unique<Ctx>();
    size_t ri = 0, ti = 0;
    auto heads = [&] {
        while (!s.broken && ri < s.d->rec.size() && s.d->rec[ri].tr.empty())
            ++ri;
        if (!s.broken && ri < s.d->rec.size()) {
            cmp_general(*dummy, *in, s.d->rec[ri], "record");
            cmp_chsets(*dummy, *in, s.d->rec[ri], "record");
        }
        string t;
        for (auto& e : in->extended_headers())
            t.append(e.data(), e.size());
        for (auto& e : in->external_headers())
            t.append(e.data(), e.size());
        for (auto& a : in->channel_set_headers())
            for (auto& b : a)
                t += fmt("%d.%d:%d,", static_cast<int>(b.scan_type_number), static_cast<int>(b.channel_set_number), static_cast<int>(b.number_of_channels));
        auto g = in->general_header();
        return t + fmt("%d %d %d", static_cast<int>(g.file_number), static_cast<int>(g.format_code), static_cast<int>(g.day));
    };
    co_yield run(heads);
    int bad = 0;
    for (int k = 0; k < 40 && bad < 3; ++k) {
        bool more = false, tr = false;
        co_yield run([&] { more = in->has_record(); tr = in->has_trace(); return string(more ? "more" : "end") + (tr ? "!" : "."); });
        if (!more)
            break;
        string got = run([&] { Trace t = in->read_trace(); return ser(t); });
        bad += got.compare(0, 5, "threw") == 0;
        co_yield got;
        if (!s.broken && ++ti == s.d->rec[ri].tr.size()) {
            ti = 0;
            ++ri;
            co_yield run(heads);
        } else if (k % 7 == 3)
            co_yield run(heads);
    }
}
static Co segy_write(Spec const& s, string out_path)
{
    std::unique_ptr<sedaman::OSEGY> out;
    co_yield run([&] { out = make_writer(s.rev, out_path, s.text, s.bh, s.trl, CommonSEGY::default_trace_header); return string("open"); });
    if (out)
        for (auto& t : s.tr)
            co_yield run([&] { Trace x(t.first, t.second); out->write_trace(x); return string("written"); });
    out.reset();
    co_yield read_file(out_path);
    unlink(out_path.c_str());
}
static Co segd_write(Spec const& s, string out_path)
{
    // what is written comes from a reader of the same file
    std::unique_ptr<sedaman::ISEGD> in;
    co_yield run([&] { in = std::make_unique<sedaman::ISEGD>(s.in, s.d->maps); return string("open"); });
    if (!in)
        co_return;
    std::unique_ptr<sedaman::OSEGDRev2_1> out;
    co_yield run([&] {
        std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>> add;
        for (auto& n : in->general_headerN())
            add.push_back(std::make_shared<CS::GeneralHeaderN>(n));
        out = std::make_unique<sedaman::OSEGDRev2_1>(out_path, in->general_header(), *in->general_header2(), in->channel_set_headers(), add, in->extended_headers(), in->external_headers(), s.d->maps);
        return string("open");
    });
    for (size_t k = 0; out && k < s.d->rec[0].tr.size(); ++k) {
        std::unique_ptr<Trace> t;
        co_yield run([&] { t = std::make_unique<Trace>(in->read_trace()); return ser(*t); });
        if (t)
            co_yield run([&] { out->write_trace(*t); return string("written"); });
    }
    out.reset();
    co_yield read_file(out_path);
    unlink(out_path.c_str());
}
static Co names(Spec const&)
{
    co_yield run([&] {
        string t;
        for (auto& h : CommonSEGY::default_trace_header)
            for (auto& e : h.second)
                t += fmt("%s %u %s %d;", h.first.c_str(), e.first, e.second.first.c_str(), static_cast<int>(e.second.second));
        return t;
    });
    for (int i = 0; i < 12; ++i) {
        co_yield run([&] {
            string t;
#define K(x) t += CS::x::name_as_string(static_cast<CS::x::Name>(i % 6)) + string(",");
            K(GeneralHeader) K(GeneralHeader2) K(GeneralHeaderN) K(ChannelSetHeader)
#undef K
            return t + BH::name_as_string(static_cast<BH::Name>(i % 6));
        });
        co_yield run([&] {
            try {
                throw sedaman::Exception("file", i, fmt("message %d", i));
            } catch (sedaman::Exception const& e) {
                return string(e.what());
            }
        });
        co_yield run([&] {
            Trace t(HV { { "A", Value(int64_t(i)) }, { "B", Value(i / 3.0) } }, std::vector<double>(static_cast<size_t>(i), i));
            Trace u(t);
            u.header().set("A", Value(int64_t(-i)));
            Trace v(std::move(u));
            return ser(t) + ser(v);
        });
    }
}
static Co start(Spec const& s, string const& out_path)
{
    switch (s.what) {
    case SEGY_READ: return segy_read(s);
    case SEGY_SORTED: return segy_sorted(s);
    case SEGD_READ: return segd_read(s);
    case SEGY_WRITE: return segy_write(s, out_path);
    case SEGD_WRITE: return segd_write(s, out_path);
    default: return names(s);
    }
}

// generation uses no library code but the default mapping and byte layout helpers
static Spec gen(Ctx& c, Rng& r, int k, int what)
{
    Spec s;
    s.what = what;
    auto spoil = [&](string b) {
        if (!r.chance(1, 6))
            return b;
        s.broken = true;
        // (ThreadSanitizer's allocator cannot refuse absurd sizes)
        for (uint64_t n = r.range(1, 3); n && !b.empty() && c.variant != "tsan"; --n)
            b[r.below(b.size())] = static_cast<char>(r.u64());
        if (r.chance(1, 2) || c.variant == "tsan")
            b.resize(r.below(b.size() + 1));
        return b;
    };
    switch (what) {
    case SEGY_READ:
    case SEGY_SORTED: {
        GenOpt o;
        o.max_ns = r.chance(1, 8) ? 700 : 15;
        o.max_traces = 6;
        o.big_ns_den = 0;
        File f;
        do
            f = gen_file(r, o);
        while (f.bytes().size() > 80000);
        s.in = c.path(fmt("a%d.sgy", k));
        write_file(s.in, spoil(f.bytes()));
        s.map = f.map;
        s.headers = r.chance(1, 2);
        s.key = f.map[0].second.empty() ? "X" : f.map[0].second.begin()->second.first;
        s.desc = f.describe();
        break;
    }
    case SEGD_READ:
    case SEGD_WRITE: {
        DGen o;
        o.maps = r.chance(1, 2);
        o.max_ns = r.chance(1, 8) ? 700 : 15;
        o.max_ch = 5;
        o.nrec = static_cast<int>(r.range(1, 3));
        if (what == SEGD_WRITE) {
            o.rev = 2;
            o.nrec = 1;
            o.canon = true;
        }
        s.d = std::make_shared<DFile>();
        do
            *s.d = gen_dfile(r, o);
        while (s.d->bytes().size() > 80000);
        s.in = c.path(fmt("a%d.segd", k));
        write_file(s.in, what == SEGD_READ ? spoil(s.d->bytes()) : s.d->bytes());
        s.desc = rec_desc(s.d->rec[0]);
        break;
    }
    case SEGY_WRITE: {
        s.rev = static_cast<int>(r.below(3));
        bool zero = r.chance(1, 3), var = s.rev && (zero || r.chance(1, 2));
        int ns = static_cast<int>(r.chance(1, 6) ? r.range(300, 900) : r.range(1, 40));
        Fmt f = zero ? fmt_of(s.rev ? 5 : 1) : formats()[r.below(13)];
        if (!zero) {
            s.bh.format_code = static_cast<int16_t>(f.code);
            s.bh.endianness = r.chance(1, 2) ? END_LE : 0;
            s.bh.fixed_tr_length = s.rev == 0 ? 0 : !var;
            s.bh.samp_int = 1000;
            s.bh.samp_per_tr = static_cast<int16_t>(ns);
            s.bh.SEGY_rev_major_ver = static_cast<uint8_t>(s.rev);
            if (s.rev && r.chance(1, 3))
                for (int i = 0; i < 3; ++i)
                    s.text.push_back(text_block(r, false));
            if (s.rev == 2 && r.chance(1, 2))
                for (uint64_t i = r.range(1, 3); i; --i)
                    s.trl.push_back(text_block(r, false));
        }
        for (uint64_t i = r.range(1, 8); i; --i) {
            HV h;
            int n = var ? static_cast<int>(r.range(1, ns)) : ns;
            if (r.chance(1, 12)) // some are refused
                ++n;
            h["SAMP_NUM"] = int64_t(n);
            h["SAMP_INT"] = int64_t(r.range(1, 4000));
            h["CHAN"] = int64_t(i);
            std::vector<double> v(static_cast<size_t>(n));
            for (auto& x : v)
                x = repr_value(r, f);
            s.tr.push_back({ h, v });
        }
        s.desc = fmt("rev%d format=%d traces=%zu", s.rev, s.bh.format_code, s.tr.size());
        break;
    }
    default: break;
    }
    s.desc = string(what_name[what]) + (s.broken ? " (damaged) " : " ") + s.desc;
    return s;
}

struct Log {
    std::vector<uint64_t> h;
    std::vector<string> head;
    void add(string const& s)
    {
        h.push_back(hash_str(s));
        head.push_back(s.substr(0, 160));
    }
};
// runs fn in a fresh copy of this process, which has not used the library yet
static std::vector<Log> in_child(std::function<std::vector<Log>()> const& fn, std::vector<uint64_t>* extra = nullptr, std::vector<uint64_t>* src = nullptr)
{
    int p[2];
    if (pipe(p))
        exit(3);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0)
        exit(3);
    if (!pid) {
        ::close(p[0]);
        auto logs = fn();
        string o;
        auto w = [&](uint64_t v) { o.append(reinterpret_cast<char*>(&v), 8); };
        w(logs.size());
        for (auto& l : logs) {
            w(l.h.size());
            for (size_t i = 0; i < l.h.size(); ++i) {
                w(l.h[i]);
                w(l.head[i].size());
                o += l.head[i];
            }
        }
        w(src ? src->size() : 0);
        if (src)
            for (auto v : *src)
                w(v);
        size_t at = 0;
        while (at < o.size()) {
            ssize_t n = ::write(p[1], o.data() + at, o.size() - at);
            if (n <= 0)
                _exit(3);
            at += static_cast<size_t>(n);
        }
        ::close(p[1]);
        exit(0); // with the checks a sanitizer does at exit
    }
    ::close(p[1]);
    string o;
    char buf[65536];
    ssize_t n;
    while ((n = ::read(p[0], buf, sizeof buf)) > 0)
        o.append(buf, static_cast<size_t>(n));
    ::close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) {
        signal(WTERMSIG(st), SIG_DFL);
        raise(WTERMSIG(st));
        _exit(98);
    }
    if (WEXITSTATUS(st))
        _exit(WEXITSTATUS(st));
    size_t at = 0;
    auto rd = [&] {
        uint64_t v = 0;
        if (at + 8 > o.size())
            exit(3);
        memcpy(&v, o.data() + at, 8);
        at += 8;
        return v;
    };
    std::vector<Log> logs(rd());
    for (auto& l : logs) {
        for (uint64_t k = rd(); k; --k) {
            l.h.push_back(rd());
            uint64_t len = rd();
            l.head.push_back(o.substr(at, len));
            at += len;
        }
    }
    uint64_t ne = rd();
    for (; ne; --ne) {
        uint64_t v = rd();
        if (extra)
            extra->push_back(v);
    }
    return logs;
}
static void run_through(Spec const& s, string const& out, Log& l)
{
    Co co = start(s, out);
    string x;
    while (co.next(x))
        l.add(x);
}
static void __attribute__((noinline)) dirty_stack(int fill)
{
    char volatile b[65536];
    for (size_t i = 0; i < sizeof b; ++i)
        b[i] = static_cast<char>(fill);
}
static void same(Ctx& c, Spec const& s, Log const& ref, Log const& got, char const* how)
{
    size_t n = std::min(ref.h.size(), got.h.size());
    for (size_t i = 0; i < n; ++i)
        MON_CHECK(ref.h[i] == got.h[i], (string(how) + "/" + what_name[s.what]).c_str(), "%s: call %zu returned \"%s\", alone in a fresh process \"%s\"", s.desc.c_str(), i, got.head[i].c_str(), ref.head[i].c_str());
    MON_CHECK(ref.h.size() == got.h.size(), (string(how) + "/" + what_name[s.what] + "-length").c_str(), "%s: %zu calls, alone %zu", s.desc.c_str(), got.h.size(), ref.h.size());
    c.count(string("compared:") + how + ":" + what_name[s.what], ref.h.size());
}

static void c20(Ctx& c)
{
    alloc_cap = size_t(1) << 24;
    auto specs = [&](Rng& r, size_t n, bool alike) {
        std::vector<Spec> v;
        int what = static_cast<int>(r.below(NAMES));
        for (size_t k = 0; k < n; ++k) {
            if (k && r.chance(1, 6) && !v[k - 1].in.empty()) { // another reader of the same file
                v.push_back(v[k - 1]);
                continue;
            }
            v.push_back(gen(c, r, static_cast<int>(k), alike && r.chance(3, 4) ? what : static_cast<int>(r.below(NWHAT))));
        }
        return v;
    };
    auto references = [&](std::vector<Spec> const& v) {
        std::vector<Log> ref;
        for (auto& s : v) {
            c.note("alone: " + s.desc);
            ref.push_back(in_child([&] {
                std::vector<Log> l(1);
                run_through(s, c.path("ref"), l[0]);
                return l;
            })[0]);
            c.count(string("sessions:") + what_name[s.what]);
        }
        return ref;
    };
    auto notes = [&](char const* how, std::vector<Spec> const& v) {
        string s = how;
        for (auto& x : v)
            s += "; " + x.desc;
        c.note(s);
        c.sample(how, s);
    };
    bool tsan = c.variant == "tsan";
    // again, over other memory, after any number of others
    c.cases("history", tsan ? 0 : c.scaled(60, 1500), [&](Rng& r, uint64_t) {
        auto v = specs(r, r.range(1, 5), r.chance(1, 2));
        auto ref = references(v);
        std::vector<size_t> order;
        for (size_t k = 0; k < v.size() * 2; ++k)
            order.push_back(r.below(v.size()));
        int f0 = static_cast<int>(r.below(256));
        notes("history", v);
        auto got = in_child([&] {
            std::vector<Log> l;
            for (size_t k : order) {
                alloc_fill = f0 = (f0 * 5 + 17) & 255;
                dirty_stack(f0);
                l.emplace_back();
                run_through(v[k], c.path("again"), l.back());
            }
            return l;
        });
        string sig;
        for (size_t k = 0; k < order.size(); ++k) {
            same(c, v[order[k]], ref[order[k]], got[k], "history");
            sig += fmt("%zu ", order[k]) + v[order[k]].desc;
        }
        c.nontrivial("history" + sig);
    });
    // one thread, calls of several sessions in any order
    c.cases("interleaved", tsan ? 0 : c.scaled(120, 3000), [&](Rng& r, uint64_t) {
        auto v = specs(r, r.range(2, 6), r.chance(1, 2));
        auto ref = references(v);
        uint64_t seed = r.u64();
        bool burst = r.chance(1, 3);
        notes("interleaved", v);
        std::vector<uint64_t> order, sent;
        auto got = in_child([&] {
            Rng q(seed);
            std::vector<Log> l(v.size());
            std::vector<std::unique_ptr<Co>> co;
            std::vector<size_t> live;
            for (size_t k = 0; k < v.size(); ++k) {
                co.push_back(std::make_unique<Co>(start(v[k], c.path(fmt("out%zu", k)))));
                live.push_back(k);
            }
            string x;
            size_t cur = 0;
            while (!live.empty()) {
                if (!burst || q.chance(1, 4) || cur >= live.size())
                    cur = q.below(live.size());
                size_t k = live[cur];
                alloc_fill = static_cast<int>(q.below(256));
                order.push_back(k);
                if (co[k]->next(x))
                    l[k].add(x);
                else {
                    if (q.chance(1, 2))
                        co[k].reset();
                    live.erase(live.begin() + static_cast<long>(cur));
                }
            }
            return l;
        }, &sent, &order);
        for (size_t k = 0; k < v.size(); ++k)
            same(c, v[k], ref[k], got[k], "interleaved");
        uint64_t sw = 0;
        for (size_t i = 1; i < sent.size(); ++i)
            sw += sent[i] != sent[i - 1];
        c.count("switches", sw);
        c.nontrivial(hash_bytes(sent.data(), sent.size() * 8));
    });
    // one session per thread
    c.cases("threads", c.scaled(tsan ? 60 : 80, tsan ? 1200 : 2000), [&](Rng& r, uint64_t) {
        size_t n = r.range(2, 8);
        auto v = specs(r, n, r.chance(2, 3));
        std::vector<Log> ref;
        if (!tsan || c.thorough)
            ref = references(v);
        uint64_t seed = r.u64();
        int reps = static_cast<int>(r.range(1, 4));
        int jitter = static_cast<int>(r.below(3));
        notes("threads", v);
        std::vector<uint64_t> order, sent;
        auto got = in_child([&] {
            std::vector<Log> l(n * static_cast<size_t>(reps));
            std::vector<std::vector<uint64_t>> when(n);
            // relaxed: the monitor adds no ordering the library could hide behind
            std::atomic<uint64_t> clock { 0 }, ready { 0 };
            std::vector<std::thread> th;
            for (size_t k = 0; k < n; ++k)
                th.emplace_back([&, k] {
                    Rng q(seed + k * 7919);
                    ready.fetch_add(1, std::memory_order_relaxed);
                    while (ready.load(std::memory_order_relaxed) < n)
                        sched_yield();
                    string x;
                    for (int i = 0; i < reps; ++i) {
                        Co co = start(v[k], c.path(fmt("thr%zu", k)));
                        Log& lg = l[k * static_cast<size_t>(reps) + static_cast<size_t>(i)];
                        while (co.next(x)) {
                            lg.add(x);
                            when[k].push_back(clock.fetch_add(1, std::memory_order_relaxed));
                            if (jitter && q.chance(1, 3)) {
                                if (jitter == 1)
                                    sched_yield();
                                else
                                    for (int volatile z = static_cast<int>(q.below(3000)); z > 0; z = z - 1) { }
                            }
                        }
                    }
                });
            for (auto& t : th)
                t.join();
            std::vector<std::pair<uint64_t, uint64_t>> ev;
            for (size_t k = 0; k < n; ++k)
                for (auto w : when[k])
                    ev.push_back({ w, k });
            std::sort(ev.begin(), ev.end());
            for (auto& e : ev)
                order.push_back(e.second);
            return l;
        }, &sent, &order);
        if (!ref.empty())
            for (size_t k = 0; k < n; ++k)
                for (size_t i = 0; i < static_cast<size_t>(reps); ++i)
                    same(c, v[k], ref[k], got[k * static_cast<size_t>(reps) + i], "threads");
        uint64_t sw = 0;
        for (size_t i = 1; i < sent.size(); ++i)
            sw += sent[i] != sent[i - 1];
        c.count("thread_switches", sw);
        c.count("concurrent_sessions", n * static_cast<uint64_t>(reps));
        c.count("calls_on_threads", sent.size());
        if (sw > n)
            c.nontrivial(hash_bytes(sent.data(), sent.size() * 8));
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C20", c20 } }); }
