// Shared by the unit harnesses: seeded generator, counters, violations.
// Output protocol (stdout, one record per line):
//   count <name> <n>      what was observed
//   top <name> <n>        running maximum
//   seen <hex>            digest of one distinct non-trivial history
//   viol <key>\t<detail>
// A harness always exits with 0 unless it dies.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return static_cast<int>(next() % static_cast<std::uint64_t>(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int percent) { return below(100) < percent; }
    template <typename T> T& pick(std::vector<T>& v) { return v[below(static_cast<int>(v.size()))]; }
    template <typename T> T const& pick(std::vector<T> const& v) { return v[below(static_cast<int>(v.size()))]; }
    template <typename T> void shuffle(std::vector<T>& v)
    {
        for (std::size_t i = v.size(); i > 1; --i)
        {
            std::swap(v[i - 1], v[below(static_cast<int>(i))]);
        }
    }
};

struct Report
{
    std::map<std::string, long long> counts, tops;
    std::set<std::uint64_t> seen_hashes;
    std::map<std::string, std::string> violations;
    std::uint64_t h = 1469598103934665603ull;

    void count(std::string const& n, long long k = 1) { counts[n] += k; }
    void top(std::string const& n, long long k)
    {
        if (k > tops[n]) tops[n] = k;
    }
    void mix(std::uint64_t x)
    {
        h = (h ^ x) * 1099511628211ull;
        h ^= h >> 29;
    }
    void mix(std::string const& s)
    {
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    }
    void seen()
    {
        seen_hashes.insert(h);
        h = 1469598103934665603ull;
    }
    void violation(std::string const& key, std::string const& detail)
    {
        if (violations.size() < 20 && violations.try_emplace(key, detail).second)
        {
            // at once, in case the program under test never comes back
            std::string e;
            for (char c : detail.substr(0, 2000)) e += (c == '\n' ? ' ' : c);
            fprintf(stderr, "viol %s\t%s\n", key.c_str(), e.c_str());
            fflush(stderr);
        }
    }
    void print()
    {
        for (auto& [n, k] : counts) printf("count %s %lld\n", n.c_str(), k);
        for (auto& [n, k] : tops) printf("top %s %lld\n", n.c_str(), k);
        for (auto x : seen_hashes) printf("seen %llx\n", static_cast<unsigned long long>(x));
        for (auto& [k, d] : violations)
        {
            std::string e;
            for (char c : d) e += (c == '\n' ? std::string("\\n") : std::string(1, c));
            printf("viol %s\t%s\n", k.c_str(), e.c_str());
        }
        fflush(stdout);
    }
};

inline Report report;
#define EXPECT(cond, key, detail)                      \
    do                                                 \
    {                                                  \
        report.count("assertions evaluated");          \
        if (!(cond))                                   \
        {                                              \
            std::ostringstream os_;                    \
            os_ << detail;                             \
            report.violation(key, os_.str());          \
        }                                              \
    } while (0)
