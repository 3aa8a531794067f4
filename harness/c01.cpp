// C01 monitor
#include "segy_ref.hpp"
#include <algorithm>
using namespace sref;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::Trace;

static void read_and_check_samples(Ctx& c, File const& f, string const& bytes, string const& tag)
{
    string p = c.path("c01.sgy");
    write_file(p, bytes);
    ISEGY in(p, f.map);
    for (size_t i = 0; i < f.tr.size(); ++i) {
        MON_CHECK(in.has_trace(), "samples/missing-trace", "%s: trace %zu not available", tag.c_str(), i);
        Trace t = in.read_trace();
        cmp_samples(f.expect_samples(f.tr[i]), t.samples(), fmt("samples/fmt%d", f.f.code).c_str(), tag + fmt(" trace %zu", i));
        c.count("samples_compared", t.samples().size());
        c.count(fmt("samples:fmt%d:%s", f.f.code, f.le ? "LE" : "BE"), t.samples().size());
    }
}
static File bulk_file(Fmt const& f, bool le, int ns, std::vector<string> const& traces)
{
    File m;
    m.f = f;
    m.le = le;
    m.endian = le ? END_LE : 0;
    m.bh.endianness = m.endian;
    m.bh.SEGY_rev_major_ver = 1;
    m.bh.fixed_tr_length = 1;
    m.bh.format_code = static_cast<int16_t>(f.code);
    if (ns > 65535)
        m.bh.ext_samp_per_tr = ns;
    else
        m.bh.samp_per_tr = static_cast<int16_t>(ns);
    m.bin = bin_header_bytes(m.bh, le, m.endian);
    m.text.push_back(string(3200, ' '));
    m.map = CommonSEGY::default_trace_header;
    for (auto& t : traces) {
        Tr tr;
        tr.hdr.push_back(string(240, '\0'));
        tr.samp = t;
        tr.ns = ns;
        m.tr.push_back(tr);
    }
    return m;
}
static void c01(Ctx& c)
{
    // every value of the 8- and 16-bit formats, both byte orders
    c.cases("exhaustive-8-16bit", 8, [&](Rng&, uint64_t i) {
        static int codes[] = { 3, 8, 11, 16 };
        Fmt f = fmt_of(codes[i / 2]);
        bool le = i & 1;
        int n = 1 << (8 * f.bytes);
        string d(static_cast<size_t>(n * f.bytes), '\0');
        for (int v = 0; v < n; ++v)
            put(&d[static_cast<size_t>(v * f.bytes)], f.bytes, static_cast<uint64_t>(v), le);
        File m = bulk_file(f, le, n, { d });
        read_and_check_samples(c, m, m.bytes(), fmt("all %d-bit values %s", 8 * f.bytes, le ? "LE" : "BE"));
        c.nontrivial(fmt("ex%d%d", f.code, le));
        c.sample("exhaustive", fmt("format %d %s: all %d values", f.code, le ? "LE" : "BE", n));
    });
    // 24-bit: strided cover in quick, every value in thorough
    c.cases("bulk-24bit", c.thorough ? 256 : 8, [&](Rng& r, uint64_t i) {
        Fmt f = fmt_of(i & 2 ? 15 : 7);
        bool le = i & 1;
        uint64_t chunk = i / 4;
        int n = 1 << 18;
        string d(static_cast<size_t>(n * 3), '\0');
        uint64_t stride = c.thorough ? 1 : 64, base = c.thorough ? chunk << 18 : r.below(64);
        for (int v = 0; v < n; ++v)
            put(&d[static_cast<size_t>(v * 3)], 3, base + static_cast<uint64_t>(v) * stride, le);
        File m = bulk_file(f, le, n, { d });
        read_and_check_samples(c, m, m.bytes(), fmt("24-bit chunk %d", static_cast<int>(chunk)));
        c.nontrivial(fmt("b24%d%d%d", f.code, le, static_cast<int>(chunk)));
    });
    // 32/64-bit: every exponent / high byte combined with edge and random low bits
    c.cases("structured-32-64bit", c.scaled(14, 140), [&](Rng& r, uint64_t i) {
        static int codes[] = { 1, 2, 5, 6, 9, 10, 12 };
        Fmt f = fmt_of(codes[i / 2 % 7]);
        bool le = i & 1;
        int n = 65536;
        string d(static_cast<size_t>(n * f.bytes), '\0');
        for (int v = 0; v < n; ++v) {
            uint64_t hi = static_cast<uint64_t>(v) >> 4; // 12 leading bits exhaustively
            uint64_t low = any_bits(r, f.bytes) & ((1ULL << (8 * f.bytes - 12)) - 1);
            put(&d[static_cast<size_t>(v * f.bytes)], f.bytes, hi << (8 * f.bytes - 12) | low, le);
        }
        File m = bulk_file(f, le, n, { d });
        read_and_check_samples(c, m, m.bytes(), fmt("leading-bits sweep fmt %d", f.code));
        c.nontrivial(content_sig(d));
    });
    c.cases("random-files", c.scaled(900, 20000), [&](Rng& r, uint64_t) {
        File f = gen_file(r, {});
        string b = f.bytes();
        c.note(f.describe());
        read_and_check_samples(c, f, b, f.describe());
        if (!f.tr.empty() && !f.tr[0].samp.empty())
            c.nontrivial(content_sig(b));
        c.sample("file", f.describe());
        c.count(f.variable ? "files:variable" : "files:fixed");
    });
    c.cases("unsupported-format", 40, [&](Rng& r, uint64_t i) {
        // formats outside the supported set must be refused, not decoded somehow
        static int bad[] = { 0, 4, 13, 14, 17, 100, -1, 255, 256 + 1, 32767 };
        File f = gen_file(r, {});
        f.bh.format_code = static_cast<int16_t>(bad[i % 10]);
        f.bin = bin_header_bytes(f.bh, f.le, f.endian);
        string p = c.path("c01.sgy");
        write_file(p, f.bytes());
        bool threw = false;
        try {
            ISEGY in(p, f.map);
        } catch (std::exception const&) {
            threw = true;
        }
        MON_CHECK(threw, "format/unsupported-accepted", "format code %d accepted", f.bh.format_code);
        c.count("unsupported_formats_refused");
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C01", c01 } }); }
