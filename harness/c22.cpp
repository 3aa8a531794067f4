// C22: every operating-system call of a session fails once, in every way, and
// every file is cut at every byte.  The monitor compares what the session
// observed with the undisturbed session.
#include "segd_ref.hpp"
#include "OSEGDRev2_1.hpp"
#include "ISEGYSorted1D.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace dref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

// ---- fault injection: interposed calls of the C++ library's file buffers ------------
enum Kind { READ, WRITE, SEEK, OPEN, NKIND };
static char const* kind_name[] = { "read", "write", "seek", "open" };
enum Fault { NONE, ERR, ZERO, SHORT, INTR, PARTIAL, NFAULT };
static char const* fault_name[] = { "none", "error", "early-end", "short", "interrupted", "partial-then-error" };
static thread_local bool armed = false;
static thread_local long calls[NKIND];
static thread_local int f_kind = -1;
static thread_local Fault f_fault = NONE;
static thread_local long f_at = 0;
static thread_local int f_errno = 0;
static thread_local long fired = 0;
static thread_local bool pending_err = false; // second half of PARTIAL
static bool hit(Kind k)
{
    if (!armed)
        return false;
    ++calls[k];
    if (f_kind == k && calls[k] == f_at && f_fault != NONE) {
        ++fired;
        return true;
    }
    return false;
}
extern "C" {
ssize_t read(int fd, void* b, size_t n)
{
    if (hit(READ))
        switch (f_fault) {
        case ERR: errno = f_errno; return -1;
        case INTR: errno = EINTR; return -1;
        case ZERO: return 0;
        case SHORT: n = n > 1 ? n / 2 : n; break;
        default: break;
        }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, void const* b, size_t n)
{
    if (armed && pending_err) {
        pending_err = false;
        ++calls[WRITE];
        errno = f_errno;
        return -1;
    }
    if (hit(WRITE))
        switch (f_fault) {
        case ERR: errno = f_errno; return -1;
        case INTR: errno = EINTR; return -1;
        case SHORT: n = n > 1 ? n / 2 : n; break;
        case PARTIAL:
            if (n > 1) {
                n /= 2;
                pending_err = true;
                break;
            }
            errno = f_errno;
            return -1;
        default: break;
        }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, iovec const* v, int cnt)
{
    if (armed && pending_err) {
        pending_err = false;
        ++calls[WRITE];
        errno = f_errno;
        return -1;
    }
    if (hit(WRITE))
        switch (f_fault) {
        case ERR: errno = f_errno; return -1;
        case INTR: errno = EINTR; return -1;
        case SHORT:
        case PARTIAL:
            // half of the first part that has anything
            for (int i = 0; i < cnt; ++i)
                if (v[i].iov_len > 1) {
                    if (f_fault == PARTIAL)
                        pending_err = true;
                    return syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len / 2);
                } else if (v[i].iov_len) {
                    if (f_fault == PARTIAL)
                        pending_err = true;
                    return syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len);
                }
            break;
        default: break;
        }
    return syscall(SYS_writev, fd, v, cnt);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept
{
    if (hit(SEEK)) {
        errno = f_errno;
        return -1;
    }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
FILE* fopen64(char const* p, char const* m)
{
    static auto real = reinterpret_cast<FILE* (*)(char const*, char const*)>(dlsym(RTLD_NEXT, "fopen64"));
    if (hit(OPEN)) {
        errno = f_errno;
        return nullptr;
    }
    return real(p, m);
}
FILE* fopen(char const* p, char const* m)
{
    static auto real = reinterpret_cast<FILE* (*)(char const*, char const*)>(dlsym(RTLD_NEXT, "fopen"));
    if (hit(OPEN)) {
        errno = f_errno;
        return nullptr;
    }
    return real(p, m);
}
}
static void arm(int kind, Fault f, long at, int err)
{
    memset(calls, 0, sizeof calls);
    f_kind = kind;
    f_fault = f;
    f_at = at;
    f_errno = err;
    fired = 0;
    pending_err = false;
    armed = true;
}

// ---- sessions ------------------------------------------------------------------
// Every operation of a session is one entry of the transcript: what it returned,
// or that it threw.
struct Session {
    std::vector<string> log;
    bool threw = false; // some operation reported a problem
    size_t threw_at = 0;
    long fired_before_throw = 0;
    bool silent = false; // a fault fired inside an operation that did not throw
    template <class F> bool op(F f)
    {
        long before = fired;
        alloc_budget = 5000000; // the files are small
        try {
            string s = f();
            alloc_budget = -1;
            armed = armed && true;
            log.push_back(std::move(s));
            if (fired != before)
                silent = true;
            return true;
        } catch (std::exception const&) {
            alloc_budget = -1;
            if (alloc_budget_hit) {
                alloc_budget_hit = false;
                armed = false;
                throw Fail("endless", "an operation goes on without end");
            }
            if (!threw) {
                threw = true;
                threw_at = log.size();
                fired_before_throw = fired;
            }
            return false;
        }
    }
};
static string ser(sedaman::Trace::Header const& h)
{
    auto ks = h.keys();
    std::sort(ks.begin(), ks.end());
    string s;
    for (auto& k : ks)
        s += k + "=" + show(*h.get(k)) + ";";
    return s;
}
static string ser(Trace& t)
{
    string s = ser(t.header()) + "|";
    for (double d : t.samples()) {
        uint64_t b = d != d ? 1 : f64_enc(d);
        s.append(reinterpret_cast<char*>(&b), 8);
    }
    return s;
}
static string ser(BH const& h)
{
    string s;
    for (auto& f : bin_fields())
        s += fmt("%lld,", static_cast<long long>(f.get(h)));
    return s;
}
using Sess = std::function<void(Session&)>;

static Sess segy_read(string p, Map m, bool headers)
{
    return [=](Session& s) {
        std::unique_ptr<ISEGY> in;
        if (!s.op([&] { in = std::make_unique<ISEGY>(p, m); return string("open"); }))
            return;
        s.op([&] { string t; for (auto& x : in->text_headers()) t += x; return t; });
        s.op([&] { string t; for (auto& x : in->trailer_stanzas()) t += x; return t; });
        s.op([&] { return ser(in->binary_header()); });
        for (int k = 0, after = 0; k < 60 && after < 3; ++k) {
            bool more = false;
            s.op([&] { more = in->has_trace(); return string(more ? "more" : "end"); });
            if (!more && !s.threw)
                break;
            s.op([&] {
                if (headers && k % 2) {
                    auto h = in->read_header();
                    return ser(h);
                }
                Trace t = in->read_trace();
                return ser(t);
            });
            if (s.threw)
                ++after;
        }
    };
}
static Sess segy_sorted(string p, Map m, string key)
{
    return [=](Session& s) {
        std::unique_ptr<ISEGYSorted1D> in;
        if (!s.op([&] { in = std::make_unique<ISEGYSorted1D>(p, key, m); return string("open"); }))
            return;
        std::vector<Value> ks;
        s.op([&] { string t; for (auto& k : in->get_keys()) { ks.push_back(k); t += show(k) + ","; } return t; });
        for (auto& k : ks) {
            s.op([&] { string t; for (auto& x : in->get_headers(k)) t += ser(x) + "\n"; return t; });
            s.op([&] { string t; for (auto& x : in->get_traces(k)) { Trace y = x; t += ser(y) + "\n"; } return t; });
        }
        for (int k = 0; k < 60; ++k) {
            bool more = false;
            s.op([&] { more = in->has_trace(); return string(more ? "more" : "end"); });
            if (!more || s.threw)
                break;
            s.op([&] { Trace t = in->read_trace(); return ser(t); });
        }
    };
}
static Sess segd_read(string p, ExtMaps m)
{
    return [=](Session& s) {
        std::unique_ptr<ISEGD> in;
        if (!s.op([&] { in = std::make_unique<ISEGD>(p, m); return string("open"); }))
            return;
        auto heads = [&] {
            s.op([&] {
                string t;
                for (auto& e : in->extended_headers())
                    t.append(e.data(), e.size());
                for (auto& e : in->external_headers())
                    t.append(e.data(), e.size());
                for (auto& a : in->channel_set_headers())
                    for (auto& b : a)
                        t += fmt("%d.%d:%d,", static_cast<int>(b.scan_type_number), static_cast<int>(b.channel_set_number), static_cast<int>(b.number_of_channels));
                auto g = in->general_header();
                return t + fmt("%d %d %d", static_cast<int>(g.file_number), static_cast<int>(g.format_code), static_cast<int>(g.day));
            });
        };
        heads();
        for (int k = 0, after = 0; k < 200 && after < 3; ++k) {
            bool more = false, tr = false;
            s.op([&] { more = in->has_record(); tr = in->has_trace(); return string(more ? "more" : "end") + (tr ? "!" : "."); });
            if (!more && !s.threw)
                break;
            s.op([&] { Trace t = in->read_trace(); return ser(t); });
            if (k % 5 == 0)
                heads();
            if (s.threw)
                ++after;
        }
    };
}
struct WSpec {
    int rev;
    std::vector<string> text, trl;
    BH bh {};
    Map map = CommonSEGY::default_trace_header;
    std::vector<std::pair<HV, std::vector<double>>> tr;
};
static Sess segy_write(string p, WSpec const& w)
{
    return [=](Session& s) {
        std::unique_ptr<sedaman::OSEGY> out;
        if (!s.op([&] { out = make_writer(w.rev, p, w.text, w.bh, w.trl, w.map); return string("open"); }))
            return;
        for (auto& t : w.tr)
            s.op([&] { Trace x(t.first, t.second); out->write_trace(x); return string("written"); });
        long before = fired;
        out.reset();
        if (fired != before)
            s.log.push_back("fault while closing");
    };
}
struct DSpec {
    std::shared_ptr<Rec> rec;
    ExtMaps maps;
    std::shared_ptr<CS::GeneralHeader> gh;
    std::shared_ptr<CS::GeneralHeader2> gh2;
    std::vector<std::vector<CS::ChannelSetHeader>> cs;
    std::vector<std::shared_ptr<CS::AdditionalGeneralHeader>> add;
    std::vector<std::vector<char>> extd, extl;
    std::vector<Trace> tr;
};
static Sess segd_write(string p, DSpec const& d)
{
    return [=](Session& s) {
        std::unique_ptr<sedaman::OSEGDRev2_1> out;
        if (!s.op([&] { out = std::make_unique<sedaman::OSEGDRev2_1>(p, *d.gh, *d.gh2, d.cs, d.add, d.extd, d.extl, d.maps); return string("open"); }))
            return;
        for (auto& t : d.tr)
            s.op([&] { Trace x = t; out->write_trace(x); return string("written"); });
        long before = fired;
        out.reset();
        if (fired != before)
            s.log.push_back("fault while closing");
    };
}

// runs a session once per call it makes and per way to fail
static void sweep(Ctx& c, string const& what, Sess const& f, bool writer, string const& out_path, string const& tag)
{
    Session ref;
    arm(-1, NONE, 0, 0);
    f(ref);
    armed = false;
    MON_CHECK(!ref.threw, (what + "/undisturbed").c_str(), "%s: threw without any fault", tag.c_str());
    string ref_bytes = writer ? read_file(out_path) : string();
    long n[NKIND];
    memcpy(n, calls, sizeof n);
    for (int k = 0; k < NKIND; ++k)
        c.count(string("calls:") + what + ":" + kind_name[k], static_cast<uint64_t>(n[k]));
    static int const errs[] = { EIO, ENOSPC, EACCES, EMFILE, EFBIG };
    for (int k = 0; k < NKIND; ++k)
        for (long at = 1; at <= n[k]; ++at)
            for (int ft = ERR; ft < NFAULT; ++ft) {
                Fault fl = static_cast<Fault>(ft);
                if (k == READ ? fl == PARTIAL : k == WRITE ? fl == ZERO : fl != ERR)
                    continue;
                bool benign = fl == SHORT || fl == INTR;
                Session s;
                string desc = tag + fmt(": %s call %ld of %ld: %s", kind_name[k], at, n[k], fault_name[ft]);
                c.note(desc);
                arm(k, fl, at, errs[static_cast<size_t>(at + ft) % 5]);
                f(s);
                armed = false;
                if (!fired) {
                    c.count("not_reached");
                    continue;
                }
                c.count(string("faults:") + what + ":" + kind_name[k] + ":" + fault_name[ft]);
                string key = what + "/" + kind_name[k] + "-" + fault_name[ft];
                bool closing = !s.log.empty() && s.log.back() == "fault while closing";
                if (benign) {
                    MON_CHECK(!s.threw, (key + "-not-survived").c_str(), "%s: reported as a failure", desc.c_str());
                    if (closing)
                        s.log.pop_back();
                    MON_CHECK(s.log == ref.log, (key + "-other-data").c_str(), "%s: other data than without it", desc.c_str());
                    if (writer)
                        MON_CHECK(read_file(out_path) == ref_bytes, (key + "-other-bytes").c_str(), "%s: other bytes written than without it", desc.c_str());
                    continue;
                }
                if (writer) {
                    // inside an operation: that operation throws; while closing: nothing to tell it to
                    MON_CHECK(s.threw || closing, (key + "-silent").c_str(), "%s: no operation reported it", desc.c_str());
                    c.count(s.threw ? "reported" : "failed_while_closing");
                } else {
                    // everything before the report is right; nothing is wrong silently
                    size_t lim = s.threw ? s.threw_at : s.log.size();
                    for (size_t i = 0; i < lim; ++i)
                        MON_CHECK(i < ref.log.size() && s.log[i] == ref.log[i], (key + "-wrong-data").c_str(), "%s: operation %zu returned wrong data without a report", desc.c_str(), i);
                    MON_CHECK(s.threw || s.log.size() == ref.log.size(), (key + "-silent-end").c_str(), "%s: the session ended early without a report", desc.c_str());
                    c.count(s.threw ? "reported" : "harmless");
                }
                c.nontrivial(desc);
            }
}

static void c22(Ctx& c)
{
    signal(SIGXFSZ, SIG_IGN);
    auto small_segy = [](Rng& r) {
        GenOpt o;
        o.max_ns = r.chance(1, 4) ? 900 : 12;
        o.max_traces = 5;
        o.big_ns_den = 0;
        File f;
        do
            f = gen_file(r, o);
        while (f.bytes().size() > 60000 || f.tr.empty());
        return f;
    };
    c.cases("segy-reader", c.scaled(40, 800), [&](Rng& r, uint64_t i) {
        File f = small_segy(r);
        string p = c.path("c22.sgy");
        write_file(p, f.bytes());
        if (i % 3 == 2) {
            string key = f.map[0].second.empty() ? "X" : f.map[0].second.begin()->second.first;
            sweep(c, "segy-sorted", segy_sorted(p, f.map, key), false, p, f.describe());
        } else
            sweep(c, "segy-reader", segy_read(p, f.map, i & 1), false, p, f.describe());
        c.sample("segy-reader", f.describe());
    });
    c.cases("segd-reader", c.scaled(30, 600), [&](Rng& r, uint64_t i) {
        DGen o;
        o.maps = i & 1;
        o.max_ns = r.chance(1, 4) ? 900 : 12;
        o.nrec = static_cast<int>(r.range(1, 2));
        DFile f;
        do
            f = gen_dfile(r, o);
        while (f.bytes().size() > 40000);
        string p = c.path("c22.segd");
        write_file(p, f.bytes());
        sweep(c, "segd-reader", segd_read(p, f.maps), false, p, rec_desc(f.rec[0]));
        c.sample("segd-reader", rec_desc(f.rec[0]));
    });
    auto wspec = [](Rng& r) {
        WSpec w;
        w.rev = static_cast<int>(r.below(3));
        bool zero = r.chance(1, 3), var = w.rev && (zero || r.chance(1, 2));
        int ns = static_cast<int>(r.chance(1, 3) ? r.range(300, 2000) : r.range(1, 40));
        Fmt f = zero ? fmt_of(w.rev ? 5 : 1) : formats()[r.below(13)];
        if (!zero) {
            w.bh.format_code = static_cast<int16_t>(f.code);
            w.bh.endianness = r.chance(1, 2) ? END_LE : 0;
            w.bh.fixed_tr_length = w.rev == 0 ? 0 : !var;
            w.bh.samp_int = 1000;
            w.bh.samp_per_tr = static_cast<int16_t>(ns);
            w.bh.SEGY_rev_major_ver = static_cast<uint8_t>(w.rev);
            if (w.rev && r.chance(1, 3))
                for (int k = 0; k < 3; ++k)
                    w.text.push_back(text_block(r, false));
            if (w.rev == 2 && r.chance(1, 2))
                for (uint64_t k = r.range(1, 3); k; --k)
                    w.trl.push_back(text_block(r, false));
        }
        for (uint64_t k = r.range(1, 8); k; --k) {
            HV h;
            int n = var ? static_cast<int>(r.range(1, ns)) : ns;
            h["SAMP_NUM"] = int64_t(n);
            h["SAMP_INT"] = int64_t(500);
            h["CHAN"] = int64_t(k);
            w.tr.push_back({ h, std::vector<double>(static_cast<size_t>(n), static_cast<double>(k)) });
        }
        return w;
    };
    auto wtag = [](WSpec const& w) { return fmt("writer rev%d text=%zu trailers=%zu traces=%zu format=%d", w.rev, w.text.size(), w.trl.size(), w.tr.size(), w.bh.format_code); };
    c.cases("segy-writer", c.scaled(60, 1200), [&](Rng& r, uint64_t) {
        WSpec w = wspec(r);
        string p = c.path("c22w.sgy");
        sweep(c, "segy-writer", segy_write(p, w), true, p, wtag(w));
        c.sample("segy-writer", wtag(w));
    });
    auto dspec = [&](Rng& r) {
        DGen o;
        o.rev = 2;
        o.nrec = 1;
        o.canon = true;
        o.maps = r.chance(1, 2);
        o.max_ns = r.chance(1, 3) ? 1500 : 20;
        DFile f;
        do
            f = gen_dfile(r, o);
        while (f.bytes().size() > 60000);
        string p = c.path("c22s.segd");
        write_file(p, f.bytes());
        ISEGD in(p, f.maps);
        DSpec d;
        d.rec = std::make_shared<Rec>(f.rec[0]);
        d.maps = f.maps;
        d.gh = std::make_shared<CS::GeneralHeader>(in.general_header());
        d.gh2 = std::make_shared<CS::GeneralHeader2>(*in.general_header2());
        d.cs = in.channel_set_headers();
        for (auto& n : in.general_headerN())
            d.add.push_back(std::make_shared<CS::GeneralHeaderN>(n));
        d.extd = in.extended_headers();
        d.extl = in.external_headers();
        for (size_t k = 0; k < f.rec[0].tr.size(); ++k)
            d.tr.push_back(in.read_trace());
        return d;
    };
    c.cases("segd-writer", c.scaled(40, 800), [&](Rng& r, uint64_t) {
        DSpec d = dspec(r);
        string p = c.path("c22w.segd");
        sweep(c, "segd-writer", segd_write(p, d), true, p, rec_desc(*d.rec));
        c.sample("segd-writer", rec_desc(*d.rec));
    });
    // a device that is always full, and a file that may not grow beyond a limit
    c.cases("full-device", c.scaled(60, 1000), [&](Rng& r, uint64_t i) {
        string p = i & 1 ? string("/dev/full") : c.path("c22full");
        rlimit old, lim;
        WSpec w = wspec(r);
        bool segd = r.chance(1, 3);
        DSpec d;
        if (segd)
            d = dspec(r);
        string size_p = c.path("c22size");
        Session ref, s;
        Sess a = segd ? segd_write(size_p, d) : segy_write(size_p, w);
        a(ref);
        size_t total = read_file(size_p).size();
        if (!(i & 1)) {
            getrlimit(RLIMIT_FSIZE, &old);
            lim = old;
            lim.rlim_cur = r.below(total);
        }
        string tag = (segd ? rec_desc(*d.rec) : wtag(w)) + (i & 1 ? " on /dev/full" : fmt(" limited to %llu of %zu bytes", static_cast<unsigned long long>(lim.rlim_cur), total));
        c.note(tag);
        Sess b = segd ? segd_write(p, d) : segy_write(p, w);
        if (!(i & 1))
            setrlimit(RLIMIT_FSIZE, &lim);
        b(s);
        if (!(i & 1))
            setrlimit(RLIMIT_FSIZE, &old);
        // what fits into the file buffer may only fail when closing
        bool must = total > 70000;
        MON_CHECK(s.threw || !must, "full/silent", "%s: %zu bytes written without any report", tag.c_str(), total);
        if (!(i & 1))
            MON_CHECK(read_file(p).size() <= lim.rlim_cur, "full/harness", "limit not respected");
        c.count(s.threw ? "full_reported" : "full_small");
        c.nontrivial(tag);
    });
    // every prefix of a file: a trace that is reported was in the file
    c.cases("cut-segy", c.scaled(12, 240), [&](Rng& r, uint64_t i) {
        File f;
        do
            f = small_segy(r);
        while (f.bytes().size() > 12000);
        string b = f.bytes(), p = c.path("c22c.sgy");
        // ends of the traces
        std::vector<size_t> end;
        size_t at = f.first_trace();
        for (auto& t : f.tr)
            end.push_back(at += 240 * t.hdr.size() + t.samp.size());
        Session ref;
        Sess a = segy_read(p, f.map, false);
        write_file(p, b);
        a(ref);
        size_t step = c.thorough ? 1 : 1 + b.size() / 1500;
        for (size_t n = r.below(step); n < b.size(); n += step) {
            write_file(p, b.substr(0, n));
            c.note(fmt("first %zu bytes of ", n) + f.describe());
            Session s;
            a(s);
            size_t k = 0;
            for (size_t q = 5; q < s.log.size() && (!s.threw || q < s.threw_at); q += 2, ++k) {
                MON_CHECK(k < end.size() && end[k] <= n, "cut/trace-not-in-file", "%s cut at %zu: trace %zu was reported, but ends at %zu", f.describe().c_str(), n, k, k < end.size() ? end[k] : 0);
                MON_CHECK(q < ref.log.size() && s.log[q] == ref.log[q], "cut/other-trace", "%s cut at %zu: trace %zu differs from the one in the file", f.describe().c_str(), n, k);
                c.count("traces_in_cut_files");
            }
            // a cut inside a trace is not taken for the end of the traces
            bool inside = n > f.first_trace() && std::find(end.begin(), end.end(), n) == end.end() && f.trailers.empty();
            if (inside && n < end.back())
                MON_CHECK(s.threw, "cut/silent", "%s cut at %zu: reading ended without a report", f.describe().c_str(), n);
            c.count(s.threw ? "cuts_reported" : "cuts_at_trace_ends");
        }
        c.nontrivial(b + fmt("%d", static_cast<int>(i)));
    });
    c.cases("cut-segd", c.scaled(12, 240), [&](Rng& r, uint64_t i) {
        DGen o;
        o.maps = i & 1;
        o.max_ns = 12;
        o.max_ch = 3;
        o.nrec = static_cast<int>(r.range(1, 2));
        DFile f;
        do
            f = gen_dfile(r, o);
        while (f.bytes().size() > 9000);
        string b = f.bytes(), p = c.path("c22c.segd");
        std::vector<size_t> end;
        std::vector<string> want;
        size_t at = 0;
        for (auto& x : f.rec) {
            at += x.head().size();
            for (auto& t : x.tr) {
                end.push_back(at += 20 + 32 * t.ext.size() + t.samp.size());
            }
            at += x.trailer.size();
        }
        write_file(p, b);
        {
            ISEGD in(p, f.maps);
            while (in.has_record()) {
                Trace t = in.read_trace();
                want.push_back(ser(t));
            }
        }
        size_t step = c.thorough ? 1 : 1 + b.size() / 1200;
        for (size_t n = r.below(step); n < b.size(); n += step) {
            write_file(p, b.substr(0, n));
            c.note(fmt("first %zu bytes of ", n) + rec_desc(f.rec[0]));
            size_t k = 0;
            bool threw = false, unread = false;
            try {
                ISEGD in(p, f.maps);
                while (in.has_record()) {
                    Trace t = in.read_trace();
                    MON_CHECK(k < end.size() && end[k] <= n, "cut/trace-not-in-file", "%s cut at %zu: trace %zu was reported, but ends at %zu", rec_desc(f.rec[0]).c_str(), n, k, k < end.size() ? end[k] : 0);
                    MON_CHECK(ser(t) == want[k], "cut/other-trace", "%s cut at %zu: trace %zu differs from the one in the file", rec_desc(f.rec[0]).c_str(), n, k);
                    ++k;
                    c.count("traces_in_cut_files");
                }
                // the record promises traces which the file does not have: has_trace() says so
                unread = in.has_trace();
            } catch (Fail const&) {
                throw;
            } catch (std::exception const&) {
                threw = true;
            }
            bool at_end = false;
            size_t q = 0;
            for (auto& x : f.rec)
                at_end |= n == (q += x.bytes().size());
            // anything but the end of a record is reported: a cut inside headers, traces or trailer
            if (!at_end && n)
                MON_CHECK(threw || unread || n == end.back(), "cut/silent", "%s cut at %zu of %zu: reading ended without a report", rec_desc(f.rec[0]).c_str(), n, b.size());
            c.count(threw ? "cuts_reported" : unread ? "cuts_with_traces_promised" : "cuts_at_record_ends");
        }
        c.nontrivial(b + fmt("%d", static_cast<int>(i)));
    });
    // names that cannot be opened or are not files
    c.cases("bad-names", 10, [&](Rng&, uint64_t i) {
        string dir = c.path("c22dir");
        mkdir(dir.c_str(), 0755);
        static char const* names[] = { "%", "%/missing/file", "" };
        for (auto* nm : names) {
            string p = nm;
            if (!p.empty() && p[0] == '%')
                p = dir + p.substr(1);
            bool threw = false;
            try {
                WSpec w;
                w.rev = static_cast<int>(i % 3);
                switch (i) {
                case 0: ISEGY { p }; break;
                case 1: ISEGYSorted1D { p, "CHAN" }; break;
                case 2: ISEGD { p }; break;
                case 3: ISEGY::read_binary_header(p); break;
                default: make_writer(w.rev, p, {}, BH {}, {}, w.map);
                }
            } catch (std::exception const&) {
                threw = true;
            }
            MON_CHECK(threw, "names/accepted", "opening \"%s\" (mode %d) did not fail", p.c_str(), static_cast<int>(i));
            c.count("bad_names_refused");
        }
        ::rmdir(dir.c_str());
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C22", c22 } }); }
