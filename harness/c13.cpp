// C13: EBCDIC/ASCII conversion observed on all 256 codes, on random strings, and
// against the invariant part of code pages 037/1047.
#include "CommonSEGY.hpp"
#include "mon.hpp"
using namespace mon;
using sedaman::CommonSEGY;

static void c13(Ctx& c)
{
    // printable ASCII 0x20..0x7e in code page 037; ^ [ ] differ in 1047 and may be either
    static unsigned char const cp037[] = {
        0x40, 0x5a, 0x7f, 0x7b, 0x5b, 0x6c, 0x50, 0x7d, 0x4d, 0x5d, 0x5c, 0x4e, 0x6b, 0x60, 0x4b, 0x61, //
        0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0x7a, 0x5e, 0x4c, 0x7e, 0x6e, 0x6f, //
        0x7c, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, //
        0xd7, 0xd8, 0xd9, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xba, 0xe0, 0xbb, 0xb0, 0x6d, //
        0x79, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, //
        0x97, 0x98, 0x99, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xc0, 0x4f, 0xd0, 0xa1
    };
    auto alt = [](int ch) { return ch == '^' ? 0x5f : ch == '[' ? 0xad : ch == ']' ? 0xbd : -1; };
    string a2e(256, 0), e2a(256, 0);
    c.cases("codes", 256, [&](Rng&, uint64_t i) {
        string s(1, static_cast<char>(i));
        CommonSEGY::ascii_to_ebcdic(s);
        MON_CHECK(s.size() == 1, "length", "ascii_to_ebcdic changed the length of a 1-byte string to %zu", s.size());
        a2e[i] = s[0];
        string b = s;
        CommonSEGY::ebcdic_to_ascii(b);
        MON_CHECK(b.size() == 1 && static_cast<unsigned char>(b[0]) == i, "a2e2a", "%02x -> %02x -> %02x", static_cast<unsigned>(i), static_cast<unsigned char>(s[0]), static_cast<unsigned char>(b[0]));
        s.assign(1, static_cast<char>(i));
        CommonSEGY::ebcdic_to_ascii(s);
        e2a[i] = s[0];
        b = s;
        CommonSEGY::ascii_to_ebcdic(b);
        MON_CHECK(b.size() == 1 && static_cast<unsigned char>(b[0]) == i, "e2a2e", "%02x -> %02x -> %02x", static_cast<unsigned>(i), static_cast<unsigned char>(s[0]), static_cast<unsigned char>(b[0]));
        c.count("codes", 2);
        c.nontrivial(i);
        if (i >= 0x20 && i <= 0x7e) {
            int got = static_cast<unsigned char>(a2e[i]);
            MON_CHECK(got == cp037[i - 0x20] || got == alt(static_cast<int>(i)), "standard", "'%c' is encoded as %02x, not %02x", static_cast<int>(i), got, cp037[i - 0x20]);
            c.count("standard_characters");
            c.sample("standard", fmt("'%c' is %02x", static_cast<int>(i), got));
        }
    });
    if (c.only && c.only_name != "codes") // replay of one string case needs the code tables
        for (int i = 0; i < 256; ++i) {
            string s(1, static_cast<char>(i));
            CommonSEGY::ascii_to_ebcdic(s);
            a2e[static_cast<size_t>(i)] = s[0];
            s.assign(1, static_cast<char>(i));
            CommonSEGY::ebcdic_to_ascii(s);
            e2a[static_cast<size_t>(i)] = s[0];
        }
    // strings of any length convert byte by byte, whatever stands next to each byte
    c.cases("strings", c.scaled(4000, 400000), [&](Rng& r, uint64_t i) {
        size_t n = i < 70 ? i : r.chance(1, 8) ? 3200 + r.below(3) : r.below(300);
        if (i >= 70 && i % 500 == 71) { // several text headers in one string and much more
            n = r.chance(1, 2) ? 65530 + r.below(12) : 32760 + r.below(400000);
            c.count("long_strings");
        }
        string s = r.bytes(n);
        if (r.chance(1, 3))
            for (auto& ch : s)
                ch = static_cast<char>(0x20 + r.below(95));
        for (int dir = 0; dir < 2; ++dir) {
            string t = s, want(n, 0);
            (dir ? CommonSEGY::ebcdic_to_ascii : CommonSEGY::ascii_to_ebcdic)(t);
            for (size_t k = 0; k < n; ++k)
                want[k] = (dir ? e2a : a2e)[static_cast<unsigned char>(s[k])];
            MON_CHECK(t.size() == n, "length", "a string of %zu became %zu", n, t.size());
            MON_CHECK(t == want, "bytewise", "string %zu bytes, direction %d: not converted byte by byte", n, dir);
            (dir ? CommonSEGY::ascii_to_ebcdic : CommonSEGY::ebcdic_to_ascii)(t);
            MON_CHECK(t == s, "string-roundtrip", "a string of %zu bytes does not survive the round trip (direction %d)", n, dir);
            c.count("bytes", 2 * n);
        }
        if (n)
            c.nontrivial(hash_str(s));
        c.sample("string", fmt("%zu bytes %s", n, hex(s, 0, 16).c_str()));
    });
    // the default text header is plain text that survives and becomes standard EBCDIC
    c.cases("default_text", 1, [&](Rng&, uint64_t) {
        string s(CommonSEGY::default_text_header, CommonSEGY::TEXT_HEADER_SIZE), t = s;
        CommonSEGY::ascii_to_ebcdic(t);
        for (size_t k = 0; k < s.size(); ++k)
            if (s[k] >= 0x20 && s[k] <= 0x7e)
                MON_CHECK(static_cast<unsigned char>(t[k]) == cp037[s[k] - 0x20] || static_cast<unsigned char>(t[k]) == alt(s[k]), "standard-text", "character %zu of the default text header", k);
        CommonSEGY::ebcdic_to_ascii(t);
        MON_CHECK(t == s, "text-roundtrip", "the default text header does not survive the round trip");
        c.count("bytes", s.size());
    });
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, { { "C13", c13 } }); }
