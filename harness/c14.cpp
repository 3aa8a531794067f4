// C14: general headers 1/2/3/N and revision 3 blocks of every record against the stored bytes
#include "segd_ref.hpp"
using namespace dref;

static void c14(Ctx& c)
{
    auto run = [&](DFile const& f, char const* kind) {
        string b = f.bytes(), p = c.path("c14.segd");
        write_file(p, b);
        string heads;
        bool nontriv = false;
        for (auto& r : f.rec) {
            heads += r.gh1 + r.gh2 + r.gh3;
            for (auto& k : r.blk)
                heads += k;
            nontriv |= r.rev > 0;
        }
        c.note(kind + (" " + rec_desc(f.rec[0])));
        read_and_check(c, f, p, CK_GEN, kind);
        if (nontriv)
            c.nontrivial(heads);
        c.sample(fmt("%s:rev%d", kind, f.rec[0].rev), rec_desc(f.rec[0]) + fmt(", %zu records", f.rec.size()));
    };
    c.cases("random", c.scaled(1500, 40000), [&](Rng& r, uint64_t i) {
        DGen o;
        o.big = i % 7 == 0;
        o.max_ns = 6;
        o.max_ch = 2;
        run(gen_dfile(r, o), "random");
    });
    // each kind of block alone and in pairs, in a file of revision 3
    static int const types[] = { 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1f, 0x20, 0x21, 0x41, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x55, 0x56, 0x60, 0x61 };
    int const nt = sizeof types / sizeof *types;
    c.cases("block-kinds", static_cast<uint64_t>(nt) * c.scaled(4, 60), [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = 3;
        o.nrec = 1;
        o.max_ns = 2;
        o.max_ch = 1;
        DFile f = gen_dfile(r, o);
        Rec& x = f.rec[0];
        x.blk.clear();
        int n = static_cast<int>(r.range(1, 3));
        for (int k = 0; k < n; ++k) {
            string b = r.bytes(32);
            int t = k == 0 ? types[i % nt] : types[r.below(nt)];
            b[31] = static_cast<char>(t);
            if (t >= 0x15 && t <= 0x1f) {
                b[3] = static_cast<char>(b[3] & 0x7f);
                b[8] = static_cast<char>(b[8] & 0x7f);
            }
            if (t == 0x21)
                for (int q = 1; q <= 5; ++q)
                    rnd_bcd(r, b, 2 * (6 * q - 5), 2);
            x.blk.push_back(b);
        }
        set_nib(x.gh1, 22, n + 2);
        c.count(fmt("kind:%02x", types[i % nt]));
        run(f, "block-kinds");
    });
    // one byte of a header block at a time is set, all others are zero: a field
    // read from the wrong place or with the wrong width shows
    c.cases("walking-byte", c.scaled(640, 6400), [&](Rng& r, uint64_t i) {
        DGen o;
        o.rev = static_cast<int>(i % 4);
        o.nrec = 1;
        o.max_ns = 2;
        o.max_ch = 1;
        DFile f = gen_dfile(r, o);
        Rec& x = f.rec[0];
        int at = static_cast<int>(r.below(31));
        auto walk = [&](string& b, std::set<int> keep) {
            if (b.empty())
                return;
            for (int k = 0; k < 32; ++k)
                if (!keep.count(k))
                    b[static_cast<size_t>(k)] = k == at ? static_cast<char>(r.range(1, 127)) : 0;
        };
        walk(x.gh2, x.rev < 3 ? std::set<int> { 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 18 } : std::set<int> { 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 22, 23, 27, 28, 29, 31 });
        walk(x.gh3, { 31 });
        for (auto& b : x.blk) {
            unsigned char t = static_cast<unsigned char>(b[31]);
            if (x.rev >= 3 && t == 0x21)
                continue;
            walk(b, x.rev < 3 ? std::set<int> { 18 } : std::set<int> { 31 });
        }
        run(f, "walking-byte");
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C14", c14 } }); }
