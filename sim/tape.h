// The one source of choices. A run is a pure function of (tape, code): in generation mode the tape is
// filled from a PRNG, in replay mode it is read back (0 past the end), which also makes it shrinkable.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

struct Rng // splitmix64-seeded xorshift-multiply generator
{
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
    bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
    r.next();
    return r.next();
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    return fnv(s.data(), s.size(), h);
}

// The choices of the current run, kept where they survive a crash of the process making them.
struct TapeMirror
{
    uint64_t n;
    uint64_t overflow;
    static constexpr uint64_t kCap = 1 << 20;
    uint64_t v[kCap];
};
extern TapeMirror* tape_mirror;

struct Tape
{
    std::vector<uint64_t> v;
    size_t pos = 0;
    bool replay = false;
    uint64_t seed_of = 0;
    Rng rng{0};

    static Tape fresh(uint64_t seed)
    {
        Tape t;
        t.rng = Rng(seed);
        t.seed_of = seed;
        return t;
    }
    static Tape from(std::vector<uint64_t> vals)
    {
        Tape t;
        t.v = std::move(vals);
        t.replay = true;
        return t;
    }
    // Uniform in [0, n). 0 is always the simplest choice.
    uint64_t draw(uint64_t n)
    {
        if (n <= 1) return 0;
        if (replay) {
            uint64_t r = pos < v.size() ? v[pos] : 0;
            pos++;
            return r % n;
        }
        uint64_t r = rng.next() % n;
        v.push_back(r);
        if (tape_mirror) {
            if (tape_mirror->n < TapeMirror::kCap)
                tape_mirror->v[tape_mirror->n++] = r;
            else
                tape_mirror->overflow = 1;
        }
        pos++;
        return r;
    }
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
    // A seed for bulk values: 0 means "the simplest values".
    uint64_t seed() { return draw(0xFFFFFFFFull); }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
};

} // namespace sim
