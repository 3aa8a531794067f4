// Independent SEG-Y reference codec, file builder and workload generator.
// Written from the SEG-Y rev 0/1/2 layout, shares no code with the library.
#pragma once
#include "mon.hpp"
#include "CommonSEGY.hpp"
#include "ISEGY.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include "Trace.hpp"
#include <array>
#include <memory>
#include <unordered_map>

namespace sref {
using namespace mon;
using BH = sedaman::CommonSEGY::BinaryHeader;
using VT = sedaman::Trace::Header::ValueType;
using Value = sedaman::Trace::Header::Value;
using FieldMap = std::map<uint32_t, std::pair<string, VT>>;
using Map = std::vector<std::pair<string, FieldMap>>;
using HV = std::unordered_map<string, Value>;

inline int vt_size(VT t)
{
    switch (t) {
    case VT::int8_t: case VT::uint8_t: return 1;
    case VT::int16_t: case VT::uint16_t: return 2;
    case VT::int24_t: case VT::uint24_t: return 3;
    case VT::int32_t: case VT::uint32_t: case VT::ibm: case VT::ieee_single: return 4;
    default: return 8;
    }
}
inline bool vt_float(VT t) { return t == VT::ibm || t == VT::ieee_single || t == VT::ieee_double; }
inline bool vt_signed(VT t)
{
    return t == VT::int8_t || t == VT::int16_t || t == VT::int24_t || t == VT::int32_t || t == VT::int64_t;
}
inline void put(char* p, int n, uint64_t v, bool le)
{
    for (int i = 0; i < n; ++i) {
        int sh = le ? 8 * i : 8 * (n - 1 - i);
        p[i] = static_cast<char>((v >> sh) & 0xff);
    }
}
inline uint64_t getu(char const* p, int n, bool le)
{
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) {
        int sh = le ? 8 * i : 8 * (n - 1 - i);
        v |= static_cast<uint64_t>(static_cast<unsigned char>(p[i])) << sh;
    }
    return v;
}
inline int64_t gets(char const* p, int n, bool le)
{
    uint64_t v = getu(p, n, le);
    if (n < 8 && (v >> (8 * n - 1) & 1))
        v |= ~uint64_t(0) << (8 * n);
    return static_cast<int64_t>(v);
}
inline double ibm_dec(uint32_t x)
{
    double r = std::ldexp(static_cast<double>(x & 0xffffff), 4 * (static_cast<int>(x >> 24 & 0x7f) - 64) - 24);
    return x >> 31 ? -r : r;
}
inline double f32_dec(uint32_t x)
{
    float f;
    memcpy(&f, &x, 4);
    return static_cast<double>(f);
}
inline double f64_dec(uint64_t x)
{
    double f;
    memcpy(&f, &x, 8);
    return f;
}
// canonical (normalised) IBM encoding by truncation; v must be in range
inline uint32_t ibm_enc(double v)
{
    if (v == 0)
        return 0;
    int e;
    double m = std::frexp(std::fabs(v), &e); // m in [0.5,1)
    int h = e > 0 ? (e + 3) / 4 : -((-e) / 4); // ceil(e/4)
    double frac = std::ldexp(m, e - 4 * h); // [1/16,1)
    uint32_t mant = static_cast<uint32_t>(std::ldexp(frac, 24));
    return (v < 0 ? 0x80000000u : 0u) | static_cast<uint32_t>(h + 64) << 24 | mant;
}
inline uint32_t f32_enc(float f)
{
    uint32_t x;
    memcpy(&x, &f, 4);
    return x;
}
inline uint64_t f64_enc(double f)
{
    uint64_t x;
    memcpy(&x, &f, 8);
    return x;
}
inline Value field_dec(VT t, char const* p, bool le)
{
    int n = vt_size(t);
    if (t == VT::ibm)
        return ibm_dec(static_cast<uint32_t>(getu(p, 4, le)));
    if (t == VT::ieee_single)
        return f32_dec(static_cast<uint32_t>(getu(p, 4, le)));
    if (t == VT::ieee_double)
        return f64_dec(getu(p, 8, le));
    return vt_signed(t) ? gets(p, n, le) : static_cast<int64_t>(getu(p, n, le));
}
inline double num(Value const& v) { return v.index() == 0 ? static_cast<double>(std::get<0>(v)) : std::get<1>(v); }
inline int64_t inum(Value const& v)
{
    return v.index() == 0 ? std::get<0>(v) : static_cast<int64_t>(std::get<1>(v));
}
inline void field_enc(VT t, char* p, bool le, Value const& v)
{
    if (t == VT::ibm)
        put(p, 4, ibm_enc(num(v)), le);
    else if (t == VT::ieee_single)
        put(p, 4, f32_enc(static_cast<float>(num(v))), le);
    else if (t == VT::ieee_double)
        put(p, 8, f64_enc(num(v)), le);
    else
        put(p, vt_size(t), static_cast<uint64_t>(inum(v)), le);
}
inline bool same_value(Value const& a, Value const& b)
{
    if (a.index() != b.index())
        return false;
    return a.index() == 0 ? std::get<0>(a) == std::get<0>(b) : same_num(std::get<1>(a), std::get<1>(b));
}
inline string show(Value const& v)
{
    return v.index() == 0 ? fmt("int %lld", static_cast<long long>(std::get<0>(v))) : fmt("dbl %.17g", std::get<1>(v));
}

// ---- samples ---------------------------------------------------------------
struct Fmt { int code, bytes; char kind; }; // kind: b=IBM f=f32 d=f64 i=signed u=unsigned
inline std::vector<Fmt> const& formats()
{
    static std::vector<Fmt> f = { { 1, 4, 'b' }, { 2, 4, 'i' }, { 3, 2, 'i' }, { 5, 4, 'f' }, { 6, 8, 'd' }, { 7, 3, 'i' },
        { 8, 1, 'i' }, { 9, 8, 'i' }, { 10, 4, 'u' }, { 11, 2, 'u' }, { 12, 8, 'u' }, { 15, 3, 'u' }, { 16, 1, 'u' } };
    return f;
}
inline Fmt const& fmt_of(int code)
{
    for (auto& f : formats())
        if (f.code == code)
            return f;
    abort();
}
inline double samp_dec(Fmt const& f, char const* p, bool le)
{
    switch (f.kind) {
    case 'b': return ibm_dec(static_cast<uint32_t>(getu(p, 4, le)));
    case 'f': return f32_dec(static_cast<uint32_t>(getu(p, 4, le)));
    case 'd': return f64_dec(getu(p, 8, le));
    case 'i': return static_cast<double>(gets(p, f.bytes, le));
    default: return static_cast<double>(getu(p, f.bytes, le));
    }
}
inline void samp_enc(Fmt const& f, char* p, bool le, double v)
{
    switch (f.kind) {
    case 'b': put(p, 4, ibm_enc(v), le); break;
    case 'f': put(p, 4, f32_enc(static_cast<float>(v)), le); break;
    case 'd': put(p, 8, f64_enc(v), le); break;
    case 'i': put(p, f.bytes, static_cast<uint64_t>(static_cast<int64_t>(v)), le); break;
    default: put(p, f.bytes, static_cast<uint64_t>(v), le); break;
    }
}
// any bit pattern, biased towards edges
inline uint64_t any_bits(Rng& r, int bytes)
{
    uint64_t mask = bytes == 8 ? ~0ULL : (1ULL << (8 * bytes)) - 1;
    switch (r.below(10)) {
    case 0: return 0;
    case 1: return mask;
    case 2: return 1ULL << (8 * bytes - 1);
    case 3: return (1ULL << (8 * bytes - 1)) - 1;
    case 4: return r.below(300) & mask;
    case 5: return (0 - r.below(300)) & mask;
    case 6: return (1ULL << r.below(8 * bytes)) & mask;
    default: return r.u64() & mask;
    }
}
// a value exactly representable in the format in canonical encoding
inline double repr_value(Rng& r, Fmt const& f)
{
    switch (f.kind) {
    case 'b': {
        if (r.chance(1, 12))
            return 0;
        if (r.chance(1, 6)) { // exact powers of 16 and 2
            int e = static_cast<int>(r.range(-255, 251));
            return std::ldexp(r.chance(1, 2) ? 1.0 : -1.0, e);
        }
        uint32_t mant = static_cast<uint32_t>(r.range(0x100000, 0xffffff));
        if (r.chance(1, 8))
            mant = 0xffffff;
        if (r.chance(1, 8))
            mant = 0x100000;
        uint32_t e = r.chance(1, 2) ? static_cast<uint32_t>(r.range(56, 72)) : static_cast<uint32_t>(r.range(0, 127));
        return ibm_dec((r.chance(1, 2) ? 0x80000000u : 0) | e << 24 | mant);
    }
    case 'f': {
        for (;;) {
            uint32_t x = static_cast<uint32_t>(any_bits(r, 4));
            if (r.chance(1, 2))
                x = f32_enc(static_cast<float>(r.range(-1000000, 1000000)) / 1024.0f);
            double d = f32_dec(x);
            if (!std::isnan(d))
                return d;
        }
    }
    case 'd': {
        for (;;) {
            double d = f64_dec(any_bits(r, 8));
            if (!std::isnan(d))
                return d;
        }
    }
    case 'i': {
        char b[8];
        put(b, f.bytes, any_bits(r, f.bytes), true);
        int64_t v = gets(b, f.bytes, true);
        if (f.bytes == 8)
            while (v > (1LL << 53) || v < -(1LL << 53))
                v /= 2;
        return static_cast<double>(v);
    }
    default: {
        uint64_t v = any_bits(r, f.bytes);
        if (f.bytes == 8) {
            int sh = static_cast<int>(r.below(12));
            v >>= 11; // 53 significant bits
            v <<= sh > 11 ? 11 : sh;
        }
        return static_cast<double>(v);
    }
    }
}
// also what only IEEE formats have: negative zero, infinities and quiet NaNs
inline double repr_sample(Rng& r, Fmt const& f)
{
    bool ieee = f.kind == 'f' || f.kind == 'd';
    if (!ieee || !r.chance(1, 12))
        return repr_value(r, f);
    double v;
    switch (r.below(4)) {
    case 0:
        v = 0;
        break;
    case 1:
        v = std::numeric_limits<double>::infinity();
        break;
    case 2:
        return f.kind == 'f' ? f32_dec(static_cast<uint32_t>(any_bits(r, 4)) | 0x7fc00000u) : f64_dec(any_bits(r, 8) | 0x7ff8000000000000ULL);
    default:
        v = f.kind == 'f' ? f32_dec(static_cast<uint32_t>(r.range(1, 0x7fffff))) : f64_dec(static_cast<uint64_t>(r.range(1, (1LL << 52) - 1)));
    }
    return r.chance(1, 2) ? -v : v;
}

// ---- binary header table (byte offset inside the 400-byte header) -----------
struct BF {
    char const* name;
    int off, size;
    char kind; // i signed, u unsigned, d double
    bool rev2;
    std::function<void(BH&, uint64_t)> set;
    std::function<uint64_t(BH const&)> get;
};
template <class T> BF bf(char const* n, int off, int size, char kind, T BH::*m, bool rev2 = false)
{
    BF b;
    b.name = n;
    b.off = off;
    b.size = size;
    b.kind = kind;
    b.rev2 = rev2;
    b.set = [m](BH& h, uint64_t v) {
        if constexpr (std::is_same_v<T, double>)
            h.*m = f64_dec(v);
        else
            h.*m = static_cast<T>(v);
    };
    b.get = [m](BH const& h) -> uint64_t {
        if constexpr (std::is_same_v<T, double>)
            return f64_enc(h.*m);
        else
            return static_cast<uint64_t>(static_cast<std::make_unsigned_t<T>>(h.*m));
    };
    return b;
}
inline std::vector<BF> const& bin_fields()
{
    static std::vector<BF> v = {
        bf("job_id", 0, 4, 'i', &BH::job_id), bf("line_num", 4, 4, 'i', &BH::line_num),
        bf("reel_num", 8, 4, 'i', &BH::reel_num), bf("tr_per_ens", 12, 2, 'i', &BH::tr_per_ens),
        bf("aux_per_ens", 14, 2, 'i', &BH::aux_per_ens), bf("samp_int", 16, 2, 'i', &BH::samp_int),
        bf("samp_int_orig", 18, 2, 'i', &BH::samp_int_orig), bf("samp_per_tr", 20, 2, 'i', &BH::samp_per_tr),
        bf("samp_per_tr_orig", 22, 2, 'i', &BH::samp_per_tr_orig), bf("format_code", 24, 2, 'i', &BH::format_code),
        bf("ens_fold", 26, 2, 'i', &BH::ens_fold), bf("sort_code", 28, 2, 'i', &BH::sort_code),
        bf("vert_sum_code", 30, 2, 'i', &BH::vert_sum_code), bf("sw_freq_at_start", 32, 2, 'i', &BH::sw_freq_at_start),
        bf("sw_freq_at_end", 34, 2, 'i', &BH::sw_freq_at_end), bf("sw_length", 36, 2, 'i', &BH::sw_length),
        bf("sw_type_code", 38, 2, 'i', &BH::sw_type_code), bf("sw_ch_tr_num", 40, 2, 'i', &BH::sw_ch_tr_num),
        bf("taper_at_start", 42, 2, 'i', &BH::taper_at_start), bf("taper_at_end", 44, 2, 'i', &BH::taper_at_end),
        bf("taper_type", 46, 2, 'i', &BH::taper_type), bf("corr_traces", 48, 2, 'i', &BH::corr_traces),
        bf("bin_gain_recov", 50, 2, 'i', &BH::bin_gain_recov), bf("amp_recov_meth", 52, 2, 'i', &BH::amp_recov_meth),
        bf("measure_system", 54, 2, 'i', &BH::measure_system), bf("impulse_sig_pol", 56, 2, 'i', &BH::impulse_sig_pol),
        bf("vib_pol_code", 58, 2, 'i', &BH::vib_pol_code), bf("ext_tr_per_ens", 60, 4, 'i', &BH::ext_tr_per_ens),
        bf("ext_aux_per_ens", 64, 4, 'i', &BH::ext_aux_per_ens), bf("ext_samp_per_tr", 68, 4, 'i', &BH::ext_samp_per_tr),
        bf("ext_samp_int", 72, 8, 'd', &BH::ext_samp_int), bf("ext_samp_int_orig", 80, 8, 'd', &BH::ext_samp_int_orig),
        bf("ext_samp_per_tr_orig", 88, 4, 'i', &BH::ext_samp_per_tr_orig), bf("ext_ens_fold", 92, 4, 'i', &BH::ext_ens_fold),
        bf("SEGY_rev_major_ver", 300, 1, 'u', &BH::SEGY_rev_major_ver), bf("SEGY_rev_minor_ver", 301, 1, 'u', &BH::SEGY_rev_minor_ver),
        bf("fixed_tr_length", 302, 2, 'i', &BH::fixed_tr_length), bf("ext_text_headers_num", 304, 2, 'i', &BH::ext_text_headers_num),
        bf("max_num_add_tr_headers", 306, 4, 'i', &BH::max_num_add_tr_headers, true),
        bf("time_basis_code", 310, 2, 'i', &BH::time_basis_code, true),
        bf("num_of_tr_in_file", 312, 8, 'u', &BH::num_of_tr_in_file, true),
        bf("byte_off_of_first_tr", 320, 8, 'u', &BH::byte_off_of_first_tr, true),
        bf("num_of_trailer_stanza", 328, 4, 'i', &BH::num_of_trailer_stanza, true),
    };
    return v;
}
// fields that steer the layout and therefore may not be filled at random
inline bool steering(string const& n)
{
    static std::set<string> s = { "samp_per_tr", "format_code", "ext_samp_per_tr", "SEGY_rev_major_ver", "fixed_tr_length",
        "ext_text_headers_num", "max_num_add_tr_headers", "num_of_tr_in_file", "byte_off_of_first_tr",
        "num_of_trailer_stanza" };
    return s.count(n) != 0;
}
constexpr int32_t END_LE = 0x01020304, END_BE = 0x04030201; // as seen by a little-endian host

inline string bin_header_bytes(BH const& h, bool le, int32_t endian_field)
{
    string b(400, '\0');
    for (auto& f : bin_fields())
        put(&b[static_cast<size_t>(f.off)], f.size, f.get(h), le);
    // byte-order constant 0x01020304 stored in the file's own byte order, or 0
    if (endian_field)
        put(&b[96], 4, 0x01020304u, le);
    return b;
}

// ---- file model ---------------------------------------------------------------
struct Tr {
    std::vector<string> hdr; // raw 240-byte headers, 1 + nadd
    string samp;
    int ns = 0;
};
struct File {
    bool le = false;
    int32_t endian = 0; // value binary_header().endianness must show
    std::vector<string> text; // main + extended
    bool text_terminated = false; // extended headers announced with -1
    BH bh {};
    string bin; // 400 stored bytes
    int nadd = 0;
    bool variable = false;
    Map map;
    bool map_is_default = false;
    string gap;
    std::vector<Tr> tr;
    std::vector<string> trailers;
    Fmt f {};
    size_t first_trace() const { return 3600 + 3200 * (text.size() - 1) + gap.size(); }
    string bytes() const
    {
        string r = text[0] + bin;
        for (size_t i = 1; i < text.size(); ++i)
            r += text[i];
        r += gap;
        for (auto& t : tr) {
            for (auto& h : t.hdr)
                r += h;
            r += t.samp;
        }
        for (auto& t : trailers)
            r += t;
        return r;
    }
    HV expect_header(Tr const& t) const
    {
        HV h;
        for (size_t i = 0; i < t.hdr.size() && i < map.size(); ++i)
            for (auto& p : map[i].second)
                h[p.second.first] = field_dec(p.second.second, t.hdr[i].data() + p.first, le);
        return h;
    }
    std::vector<double> expect_samples(Tr const& t) const
    {
        std::vector<double> r(static_cast<size_t>(t.ns));
        for (int i = 0; i < t.ns; ++i)
            r[static_cast<size_t>(i)] = samp_dec(f, t.samp.data() + i * f.bytes, le);
        return r;
    }
    string describe() const
    {
        return fmt("rev=%d fmt=%d %s%s ns=%d ext_ns=%d %s nadd=%d maps=%zu%s text=%zu%s gap=%zu traces=%zu trailers=%zu(%d)",
            bh.SEGY_rev_major_ver, f.code, le ? "LE" : "BE", endian ? "" : "(implied)", bh.samp_per_tr, bh.ext_samp_per_tr,
            variable ? "variable" : "fixed", nadd, map.size(), map_is_default ? "(default)" : "", text.size(),
            text_terminated ? "(terminated)" : "", gap.size(), tr.size(), trailers.size(), bh.num_of_trailer_stanza);
    }
};

inline string text_block(Rng& r, bool terminator)
{
    string s = r.bytes(3200);
    if (r.chance(1, 6)) { // blank ones, blank lines, NULs in the middle
        static char const b[] = { ' ', '\0', '\x40', '\n' };
        size_t n = r.chance(1, 2) ? 3200 : 80 * static_cast<size_t>(r.range(1, 39));
        size_t o = r.chance(1, 2) ? 0 : 3200 - n;
        s.replace(o, n, string(n, b[r.below(4)]));
    } else if (r.chance(1, 2))
        for (auto& c : s)
            c = static_cast<char>(32 + (static_cast<unsigned char>(c) % 95));
    static string const end = "((SEG: EndText))";
    if (terminator)
        s.replace(0, end.size(), end);
    else if (s.compare(0, 6, end, 0, 6) == 0)
        s[0] = 'x';
    // a near miss of the terminator must not end the list
    if (!terminator && r.chance(1, 6))
        s.replace(0, 15, "((SEG: EndText)");
    if (!terminator && s[15] == ')')
        s[15] = '!';
    return s;
}

struct MapOpt {
    bool need_samp_num = false; // SAMP_NUM at 114 (main) and optionally 136 (first additional)
    bool full_cover = false; // every byte of every header covered by lossless fields
    bool only_int = false;
    bool encode_safe = false; // avoid overlapping names across maps (for write tests)
};
inline VT random_vt(Rng& r, bool only_int)
{
    static std::vector<VT> a = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t,
        VT::uint32_t, VT::int64_t, VT::uint64_t, VT::ibm, VT::ieee_single, VT::ieee_double };
    return only_int ? a[r.below(10)] : a[r.below(13)];
}
inline Map random_map(Rng& r, int n_maps, MapOpt o)
{
    Map m;
    for (int k = 0; k < n_maps; ++k) {
        FieldMap fm;
        uint32_t reserved_off = 0;
        int reserved = 0;
        if (o.need_samp_num && k == 0) {
            reserved_off = 114;
            reserved = 2;
            fm[114] = { "SAMP_NUM", r.chance(1, 2) ? VT::int16_t : VT::uint16_t };
        }
        if (o.need_samp_num && k == 1 && (o.full_cover || r.chance(3, 4))) {
            reserved_off = 136;
            reserved = 4;
            // the name may be shared with the main header: the last one wins
            fm[136] = { o.encode_safe ? "SAMP_NUM_X" : "SAMP_NUM", r.chance(1, 2) ? VT::int32_t : VT::uint32_t };
        }
        uint32_t off = 0;
        int id = 0;
        while (off < 240) {
            if (reserved && off == reserved_off) {
                off += static_cast<uint32_t>(reserved);
                continue;
            }
            if (!o.full_cover && r.chance(1, 3)) {
                ++off;
                continue;
            }
            VT t = random_vt(r, o.only_int || o.full_cover);
            uint32_t lim = reserved && off < reserved_off ? reserved_off : 240;
            while (off + static_cast<uint32_t>(vt_size(t)) > lim)
                t = vt_size(t) == 8 ? VT::int32_t : vt_size(t) == 4 ? VT::int24_t : vt_size(t) == 3 ? VT::uint16_t : VT::uint8_t;
            string name = fmt("H%d_%d", k, id++);
            if (!o.encode_safe && k > 0 && r.chance(1, 4))
                name = fmt("H%d_%d", k - 1, static_cast<int>(r.below(20))); // may shadow a main header name
            bool dup = false;
            for (auto& e : fm)
                dup |= e.second.first == name;
            if (dup)
                name = fmt("H%d_%d", k, id++);
            fm[off] = { name, t };
            off += static_cast<uint32_t>(vt_size(t));
        }
        m.push_back({ fmt("MAP%05d", k), fm });
    }
    return m;
}

struct GenOpt {
    int rev = -1; // -1 any of 0,1,2
    int fmt_code = -1;
    int order = -1; // 0 BE 1 LE
    bool canonical = false; // canonical samples/headers for byte-exact copies
    bool true_counts = false; // fixed length files state the number of samples in every trace header, too
    bool allow_text = true, allow_trailer = true, allow_gap = true, allow_add = true, allow_custom_map = true;
    int max_traces = 8, max_ns = 60;
    int max_map_headers = 3;
    int force_variable = -1;
    bool implied_endian_ok = true;
    bool shared_names = true; // additional maps may shadow main header names
    int min_traces = 0;
    int many_den = 25; // 1/n chance of very many text blocks, trailers or additional headers
    int big_ns_den = 60; // 1/n chance of > 32767 samples (fixed length only)
};

// random but deterministic file
inline File gen_file(Rng& r, GenOpt const& o)
{
    File f;
    int rev = o.rev >= 0 ? o.rev : static_cast<int>(r.below(3));
    f.f = o.fmt_code >= 0 ? fmt_of(o.fmt_code) : formats()[r.below(formats().size())];
    f.le = o.order >= 0 ? o.order == 1 : r.chance(1, 2);
    f.endian = f.le ? END_LE : (o.implied_endian_ok && r.chance(1, 2) ? 0 : END_BE);
    for (auto& b : bin_fields())
        if (!steering(b.name) && !(b.rev2 && rev < 2) && r.chance(2, 3)) {
            uint64_t v = any_bits(r, b.size);
            if (b.kind == 'd')
                v = f64_enc(static_cast<double>(r.range(-1000000, 1000000)) / 8);
            b.set(f.bh, v);
        }
    f.bh.endianness = f.endian;
    f.bh.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
    if (rev == 0 && r.chance(1, 2))
        f.bh.SEGY_rev_minor_ver = 0;
    f.bh.format_code = static_cast<int16_t>(f.f.code);
    bool var = rev > 0 && (o.force_variable >= 0 ? o.force_variable == 1 : r.chance(1, 2));
    f.variable = var;
    f.bh.fixed_tr_length = var ? 0 : (rev == 0 ? static_cast<int16_t>(r.chance(1, 2) ? 0 : 1) : static_cast<int16_t>(r.chance(1, 4) ? (r.chance(1, 3) ? r.range(-300, -1) : r.range(2, 300)) : 1));
    int ns = static_cast<int>(r.below(static_cast<uint64_t>(o.max_ns) + 1));
    if (r.chance(1, 20))
        ns = 0;
    if (!var && o.big_ns_den && r.chance(1, static_cast<unsigned>(o.big_ns_den)))
        ns = static_cast<int>(r.range(32760, 66000));
    if (ns > 65535 || r.chance(1, 5)) {
        f.bh.ext_samp_per_tr = ns;
        f.bh.samp_per_tr = static_cast<int16_t>(r.chance(1, 2) ? r.u64() : 0);
        if (ns == 0)
            f.bh.samp_per_tr = 0;
    } else
        f.bh.samp_per_tr = static_cast<int16_t>(ns);
    if (var) { // file-wide count is informative only
        f.bh.samp_per_tr = static_cast<int16_t>(r.below(200));
        if (f.bh.ext_samp_per_tr)
            f.bh.ext_samp_per_tr = static_cast<int32_t>(r.below(200));
    }
    int nt = static_cast<int>(r.below(static_cast<uint64_t>(o.max_traces) + 1));
    nt = std::max(nt, o.min_traces);
    if (ns > 30000)
        nt = std::min(nt, 2);
    f.nadd = rev > 1 && o.allow_add && r.chance(1, 2) ? static_cast<int>(r.range(1, o.max_map_headers)) : 0;
    if (f.nadd && o.many_den && r.chance(1, static_cast<unsigned>(o.many_den)))
        f.nadd = static_cast<int>(r.range(4, 20));
    if (f.nadd)
        f.bh.max_num_add_tr_headers = f.nadd;
    // mapping used by the reader
    if (!o.allow_custom_map || r.chance(1, 3)) {
        f.map = sedaman::CommonSEGY::default_trace_header;
        f.map_is_default = true;
        if (o.canonical && f.nadd > 1) {
            f.nadd = 1;
            f.bh.max_num_add_tr_headers = 1;
        }
    } else {
        MapOpt mo;
        mo.need_samp_num = var;
        mo.full_cover = o.canonical;
        mo.encode_safe = o.canonical || !o.shared_names;
        int nm = o.canonical ? f.nadd + 1 : static_cast<int>(r.range(1, f.nadd + 2));
        f.map = random_map(r, nm, mo);
    }
    // text
    f.text.push_back(text_block(r, false));
    if (rev > 0 && o.allow_text && r.chance(1, 2)) {
        int k = static_cast<int>(r.range(1, 3));
        if (o.many_den && r.chance(1, static_cast<unsigned>(o.many_den)))
            k = static_cast<int>(r.chance(1, 8) ? r.range(250, 300) : r.range(4, 40));
        f.text_terminated = !o.canonical && r.chance(1, 2);
        for (int i = 0; i < k; ++i)
            f.text.push_back(text_block(r, f.text_terminated && i == k - 1));
        if (k > 1 && r.chance(1, 4)) // equal blocks
            f.text[static_cast<size_t>(k - 1)] = f.text[r.below(static_cast<uint64_t>(k - 1))];
        f.bh.ext_text_headers_num = static_cast<int16_t>(f.text_terminated ? -1 : k);
    }
    if (rev > 1 && o.allow_gap && r.chance(1, 3)) {
        if (!o.canonical)
            f.gap = r.bytes(r.below(700));
        f.bh.byte_off_of_first_tr = f.first_trace();
    }
    // traces
    for (int i = 0; i < nt; ++i) {
        Tr t;
        t.ns = var ? static_cast<int>(r.below(static_cast<uint64_t>(o.max_ns) + 1)) : ns;
        t.samp.resize(static_cast<size_t>(t.ns) * static_cast<size_t>(f.f.bytes));
        for (int s = 0; s < t.ns; ++s) {
            char* p = &t.samp[static_cast<size_t>(s * f.f.bytes)];
            if (o.canonical)
                samp_enc(f.f, p, f.le, repr_sample(r, f.f));
            else
                put(p, f.f.bytes, any_bits(r, f.f.bytes), f.le);
        }
        for (int h = 0; h <= f.nadd; ++h) {
            string b = r.chance(1, 6) ? string(240, '\0') : r.bytes(240);
            if (o.canonical && f.map_is_default) { // only mapped bytes may be non-zero, doubles/dups consistent
                string z(240, '\0');
                if (h == 0)
                    for (auto& p : f.map[0].second)
                        memcpy(&z[p.first], &b[p.first], static_cast<size_t>(vt_size(p.second.second)));
                b = z;
            }
            if (h == 0)
                put(&b[114], 2, var || (o.true_counts && !o.canonical) || r.chance(1, 2) ? static_cast<uint64_t>(t.ns) : r.chance(1, 2) ? 0 : r.u64(), f.le);
            if (h == 1) {
                put(&b[136], 4, var || o.true_counts || o.canonical || r.chance(1, 2) ? static_cast<uint64_t>(t.ns) : r.chance(1, 2) ? 0 : r.u64(), f.le);
                put(&b[156], 2, static_cast<uint64_t>(r.chance(1, 2) ? 0 : f.nadd), f.le);
            }
            t.hdr.push_back(std::move(b));
        }
        if (o.canonical && f.map_is_default && f.nadd) {
            // names shared by both maps take the additional header's value on read,
            // so a canonical pair holds the same (small, non-negative) number in both
            std::map<string, Value> vals;
            for (auto& p : f.map[1].second) {
                string nm = p.second.first;
                Value v = nm == "SAMP_NUM" ? Value(int64_t(t.ns))
                    : nm == "ADD_TRC_HDR_NUM" ? Value(int64_t(r.chance(1, 2) ? 0 : f.nadd))
                    : p.second.second == VT::ieee_double ? Value(static_cast<double>(r.below(30000)))
                                                         : Value(static_cast<int64_t>(r.below(30000)));
                vals[nm] = v;
                field_enc(p.second.second, &t.hdr[1][p.first], f.le, v);
            }
            for (auto& p : f.map[0].second)
                if (vals.count(p.second.first))
                    field_enc(p.second.second, &t.hdr[0][p.first], f.le, vals[p.second.first]);
        }
        f.tr.push_back(std::move(t));
    }
    // trailers
    if (rev > 1) {
        if (r.chance(1, 2))
            f.bh.num_of_tr_in_file = static_cast<uint64_t>(nt);
        if (o.allow_trailer && r.chance(1, 2)) {
            int k = static_cast<int>(r.range(1, 3));
            if (o.many_den && r.chance(1, static_cast<unsigned>(o.many_den)))
                k = static_cast<int>(r.chance(1, 8) ? r.range(250, 300) : r.range(4, 40));
            bool term = !o.canonical && nt > 0 && r.chance(1, 2);
            for (int i = 0; i < k; ++i)
                f.trailers.push_back(text_block(r, term && i == k - 1));
            if (k > 2 && r.chance(1, 4))
                f.trailers[1] = f.trailers[0];
            if (term) {
                f.bh.num_of_trailer_stanza = -1;
                f.bh.num_of_tr_in_file = static_cast<uint64_t>(nt);
            } else
                f.bh.num_of_trailer_stanza = k;
        }
    }
    f.bin = bin_header_bytes(f.bh, f.le, f.endian);
    if (!o.canonical) { // unassigned bytes may hold anything
        for (int i = 100; i < 300; ++i)
            if (r.chance(1, 4))
                f.bin[static_cast<size_t>(i)] = static_cast<char>(r.u64());
        for (int i = rev > 1 ? 332 : 306; i < 400; ++i)
            if (r.chance(1, 4))
                f.bin[static_cast<size_t>(i)] = static_cast<char>(r.u64());
    }
    return f;
}

// ---- comparison helpers ------------------------------------------------------
inline void cmp_header(HV const& want, sedaman::Trace::Header const& got, char const* key, string const& where)
{
    auto ks = got.keys();
    std::set<string> kset(ks.begin(), ks.end());
    MON_CHECK(kset.size() == ks.size(), key, "%s: duplicate keys reported", where.c_str());
    for (auto& w : want) {
        auto g = got.get(w.first);
        MON_CHECK(g.has_value(), key, "%s: mapped field %s missing", where.c_str(), w.first.c_str());
        MON_CHECK(same_value(*g, w.second), key, "%s: field %s is %s, stored value is %s", where.c_str(), w.first.c_str(),
            show(*g).c_str(), show(w.second).c_str());
        kset.erase(w.first);
    }
    MON_CHECK(kset.empty(), key, "%s: unmapped field %s reported", where.c_str(), kset.empty() ? "" : kset.begin()->c_str());
}
inline void cmp_samples(std::vector<double> const& want, std::vector<double> const& got, char const* key, string const& where)
{
    MON_CHECK(want.size() == got.size(), key, "%s: %zu samples returned, %zu stored", where.c_str(), got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        MON_CHECK(same_num(want[i], got[i]), key, "%s: sample %zu is %.17g, stored value is %.17g", where.c_str(), i, got[i], want[i]);
}
inline void cmp_bin(BH const& want, BH const& got, char const* key, string const& where)
{
    for (auto& b : bin_fields())
        MON_CHECK(b.get(want) == b.get(got), key, "%s: %s is %#llx, expected %#llx", where.c_str(), b.name,
            static_cast<unsigned long long>(b.get(got)), static_cast<unsigned long long>(b.get(want)));
    MON_CHECK(want.endianness == got.endianness, key, "%s: endianness is %#x, expected %#x", where.c_str(), got.endianness, want.endianness);
}
inline void cmp_bytes(string const& want, string const& got, char const* key, string const& where)
{
    size_t n = std::min(want.size(), got.size());
    for (size_t i = 0; i < n; ++i)
        MON_CHECK(want[i] == got[i], key, "%s: byte %zu is %02x, expected %02x (around: got %s want %s)", where.c_str(), i,
            static_cast<unsigned char>(got[i]), static_cast<unsigned char>(want[i]), hex(got, i & ~size_t(3), 8).c_str(),
            hex(want, i & ~size_t(3), 8).c_str());
    MON_CHECK(want.size() == got.size(), key, "%s: %zu bytes, expected %zu", where.c_str(), got.size(), want.size());
}

// ---- writers -----------------------------------------------------------------
inline std::unique_ptr<sedaman::OSEGY> make_writer(int rev, string const& path, std::vector<string> const& text, BH bh,
    std::vector<string> const& trailers, Map const& m)
{
    switch (rev) {
    case 0: return std::make_unique<sedaman::OSEGYRev0>(path, text.empty() ? string() : text[0], bh, m);
    case 1: return std::make_unique<sedaman::OSEGYRev1>(path, text, bh, m);
    default: return std::make_unique<sedaman::OSEGYRev2>(path, text, bh, trailers, m);
    }
}
// expected stored header bytes for a trace header written through map entry fm
inline string expect_hdr_bytes(FieldMap const& fm, HV const& h, bool le)
{
    string b(240, '\0');
    for (auto& p : fm) {
        auto it = h.find(p.second.first);
        field_enc(p.second.second, &b[p.first], le, it == h.end() ? Value(int64_t(0)) : it->second);
    }
    return b;
}
inline void cmp_blocks(std::vector<string> const& want, std::vector<string> const& got, char const* key, string const& tag)
{
    MON_CHECK(want.size() == got.size(), key, "%s: %zu blocks, expected %zu", tag.c_str(), got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        cmp_bytes(want[i], got[i], key, tag + fmt(" block %zu", i));
}

// ---- files of more than 4 GB, mostly holes -------------------------------------
struct Sparse {
    string path;
    int fd = -1;
    uint64_t pos = 0;
    bool ok = true;
    explicit Sparse(string p)
        : path(std::move(p))
    {
        fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        ok = fd >= 0;
    }
    void put(string const& d)
    {
        for (size_t o = 0; ok && o < d.size();) {
            ssize_t k = ::pwrite(fd, d.data() + o, d.size() - o, static_cast<off_t>(pos + o));
            if (k <= 0)
                ok = false;
            else
                o += static_cast<size_t>(k);
        }
        pos += d.size();
    }
    void hole(uint64_t n) { pos += n; }
    bool done()
    {
        if (fd >= 0) {
            ok = ok && ::ftruncate(fd, static_cast<off_t>(pos)) == 0;
            ::close(fd);
            fd = -1;
        }
        return ok;
    }
    Sparse(Sparse const&) = delete;
    Sparse& operator=(Sparse const&) = delete;
    ~Sparse()
    {
        done();
        ::unlink(path.c_str());
    }
};
// A file of more than 4 GB whose traces are zero except for a mark in the first and
// the last sample; f.tr[i].ns and headers are real, the samples are not kept.
struct BigFile {
    File f;
    std::unique_ptr<Sparse> s;
    std::vector<std::pair<double, double>> mark;
    string tag;
    int variable = -1;
    bool huge_fixed = false; // traces of more than 2 GB; the reader has a buffer for one of them
    bool huge(size_t i) const { return f.tr[i].ns > 1000000; } // not to be read in full
    // key: values for the int32 field KEY
    bool make(Rng& r, string const& path, std::function<int64_t(size_t)> const& key)
    {
        GenOpt o;
        o.max_traces = 0;
        o.allow_custom_map = false;
        o.force_variable = variable;
        o.rev = static_cast<int>(variable == 1 ? r.range(1, 2) : r.below(3));
        o.many_den = 0;
        o.big_ns_den = 0;
        o.max_ns = 3;
        static int const codes[] = { 6, 9, 12, 5, 2 };
        o.fmt_code = codes[r.below(5)];
        f = gen_file(r, o);
        if (f.nadd > 1)
            f.nadd = 1;
        f.bh.max_num_add_tr_headers = f.nadd;
        f.map = { { "MAINHEAD", { { 0, { "ID", VT::int32_t } }, { 8, { "KEY", VT::int32_t } }, { 60, { "SAMP_NUM", VT::int32_t } } } } };
        if (f.nadd)
            f.map.push_back({ "ADDIHEAD", { { 100, { "ADD_ID", VT::uint32_t } } } });
        f.map_is_default = false;
        int ns = static_cast<int>(r.range(500000, 900000));
        if (huge_fixed && !f.variable)
            ns = static_cast<int>(r.range(270000000, 300000000));
        f.bh.samp_per_tr = 0;
        f.bh.ext_samp_per_tr = f.variable ? 0 : ns;
        if (f.variable)
            f.bh.samp_per_tr = 77;
        uint64_t total = (uint64_t { 4 } << 30) + r.below(uint64_t { 1 } << 29), at = f.first_trace();
        size_t huge_at = r.below(10);
        while (at < total) {
            Tr t;
            bool huge = f.variable && (f.tr.size() == huge_at || r.chance(1, 200));
            t.ns = !f.variable ? ns : huge ? static_cast<int>(r.range(540000000, 700000000)) : r.chance(1, 3) ? static_cast<int>(r.range(0, 9)) : static_cast<int>(r.range(400000, 900000));
            size_t i = f.tr.size();
            for (int h = 0; h <= f.nadd; ++h) {
                string b(240, '\0');
                if (h == 0) {
                    sref::put(&b[0], 4, i * 3 + 1, f.le);
                    sref::put(&b[8], 4, static_cast<uint64_t>(key(i)), f.le);
                    sref::put(&b[60], 4, static_cast<uint64_t>(t.ns), f.le);
                } else {
                    sref::put(&b[100], 4, i * 5 + 2, f.le);
                    sref::put(&b[136], 4, static_cast<uint64_t>(t.ns), f.le);
                }
                t.hdr.push_back(b);
            }
            at += 240 * t.hdr.size() + static_cast<uint64_t>(t.ns) * static_cast<uint64_t>(f.f.bytes);
            if (huge)
                total += static_cast<uint64_t>(t.ns) * static_cast<uint64_t>(f.f.bytes);
            f.tr.push_back(t);
        }
        // (the standard position of the sample count of a trace without additional headers has 16 bits)
        if (f.bh.SEGY_rev_major_ver > 1 && (!f.variable || f.nadd) && r.chance(1, 2)) {
            while (f.trailers.size() < 2)
                f.trailers.push_back(text_block(r, false));
            f.trailers.back() = text_block(r, true);
            f.bh.num_of_trailer_stanza = -1;
        }
        if (f.bh.SEGY_rev_major_ver > 1 && (f.bh.num_of_tr_in_file || r.chance(1, 4) || f.bh.num_of_trailer_stanza == -1))
            f.bh.num_of_tr_in_file = f.tr.size();
        f.bin = bin_header_bytes(f.bh, f.le, f.endian);
        s = std::make_unique<Sparse>(path);
        s->put(f.text[0] + f.bin);
        for (size_t i = 1; i < f.text.size(); ++i)
            s->put(f.text[i]);
        s->put(f.gap);
        for (auto& t : f.tr) {
            for (auto& h : t.hdr)
                s->put(h);
            size_t i = mark.size();
            mark.push_back({ static_cast<double>(i % 20000 + 1), static_cast<double>(i % 9000 + 20001) });
            string b(static_cast<size_t>(f.f.bytes), '\0');
            if (t.ns > 0) {
                samp_enc(f.f, &b[0], f.le, mark[i].first);
                s->put(b);
            }
            if (t.ns > 1) {
                s->hole(static_cast<uint64_t>(t.ns - 2) * static_cast<uint64_t>(f.f.bytes));
                samp_enc(f.f, &b[0], f.le, mark[i].second);
                s->put(b);
            }
        }
        for (auto& t : f.trailers)
            s->put(t);
        tag = "sparse " + f.describe() + fmt(" %llu bytes", static_cast<unsigned long long>(s->pos));
        return s->done();
    }
    void check_header(size_t i, sedaman::Trace::Header const& h, char const* k, string const& w) const
    {
        cmp_header(f.expect_header(f.tr[i]), h, k, w);
    }
    void check_samples(size_t i, std::vector<double> const& v, char const* k, string const& w) const
    {
        size_t n = static_cast<size_t>(f.tr[i].ns);
        MON_CHECK(v.size() == n, k, "%s: %zu samples, stored %zu", w.c_str(), v.size(), n);
        for (size_t j = 0; j < n; ++j) {
            double want = j == 0 ? mark[i].first : j == n - 1 ? mark[i].second : 0;
            MON_CHECK(v[j] == want, k, "%s: sample %zu is %.17g, stored value is %.17g", w.c_str(), j, v[j], want);
        }
    }
};
inline uint64_t content_sig(string const& b) { return hash_str(b); }
inline Value gen_field_value(Rng& r, VT t)
{
    switch (t) {
    case VT::ibm: {
        double v = repr_value(r, fmt_of(1));
        if (r.chance(1, 4))
            return static_cast<int64_t>(r.range(-100000, 100000));
        return v;
    }
    case VT::ieee_single:
        if (r.chance(1, 4))
            return static_cast<int64_t>(r.range(-100000, 100000));
        return repr_value(r, fmt_of(5));
    case VT::ieee_double:
        if (r.chance(1, 4))
            return static_cast<int64_t>(r.range(-1000000000000LL, 1000000000000LL));
        return repr_value(r, fmt_of(6));
    default: {
        char b[8];
        int n = vt_size(t);
        put(b, n, any_bits(r, n), true);
        int64_t v = vt_signed(t) ? gets(b, n, true) : static_cast<int64_t>(getu(b, n, true));
        if (r.chance(1, 4) && v > -(1LL << 53) && v < (1LL << 53))
            return static_cast<double>(v);
        return v;
    }
    }
}
} // namespace sref
