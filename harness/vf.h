// Runtime-monitor support: event counting, oracles, violation recording.
// Every harness links this header; nothing here knows how hpGEM is written.
#ifndef VF_H
#define VF_H
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include "Logger.h"

namespace vf {

// Thrown instead of terminating when hpGEM reports an error/failed assertion.
struct HpgemError : public std::runtime_error {
    explicit HpgemError(const std::string& m) : std::runtime_error(m) {}
};

inline std::string jsonEscape(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += (char)c;
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += (char)c;
        }
    }
    return r;
}

struct Violation {
    std::string key, detail, where;
    std::size_t count = 1;
};

struct State {
    std::uint64_t seed = 1;
    bool thorough = false;
    std::string out;
    std::string scratch;
    std::string only;
    std::map<std::string, std::string> args;
    int curFd = -1;
    std::string current;
    std::uint64_t evaluations = 0;
    std::uint64_t cases = 0;
    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, Violation> violations;
    bool finished = false;
};
inline State& st() {
    static State s;
    return s;
}

inline std::uint64_t fnv(const void* p, std::size_t n,
                         std::uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (std::size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}
inline std::uint64_t hashStr(const std::string& s) {
    return fnv(s.data(), s.size());
}

inline void cat(std::ostringstream&) {}
template <typename T, typename... R>
void cat(std::ostringstream& o, const T& t, const R&... r) {
    o << t;
    cat(o, r...);
}
template <typename... A>
std::string str(const A&... a) {
    std::ostringstream o;
    o.precision(17);
    cat(o, a...);
    return o.str();
}

// Mark the start of a case; survives a crash in the .cur file.
inline void begin(const std::string& what) {
    State& s = st();
    s.current = what;
    s.cases++;
    if (s.curFd >= 0) {
        std::string line = what.substr(0, 4000) + "\n";
        line.resize(4096, ' ');
        ssize_t r = pwrite(s.curFd, line.data(), line.size(), 0);
        (void)r;
    }
}
inline void count(const std::string& name, std::uint64_t n = 1) {
    st().counters[name] += n;
}
// One distinct, non trivial situation that a monitor judged.
inline void distinct(const std::string& what) {
    State& s = st();
    if (s.distinct.insert(hashStr(what)).second && s.samples.size() < 12 &&
        (s.distinct.size() & (s.distinct.size() - 1)) == 0) {
        s.samples.push_back(what.substr(0, 300));
    }
}
inline void violation(const std::string& key, const std::string& detail) {
    State& s = st();
    auto it = s.violations.find(key);
    if (it != s.violations.end()) {
        it->second.count++;
        return;
    }
    Violation v;
    v.key = key;
    v.detail = detail.substr(0, 2000);
    v.where = s.current;
    if (s.violations.size() < 400) s.violations[key] = v;
}
// The oracle: returns the condition. detail is only built on failure.
template <typename... A>
bool expect(bool cond, const std::string& key, const A&... detail) {
    st().evaluations++;
    if (!cond) violation(key, str(detail...));
    return cond;
}
inline bool expect_c(bool cond, const char* key) {
    st().evaluations++;
    if (!cond) violation(key, "");
    return cond;
}
template <typename A, typename B, typename... D>
bool near(const A& a, const B& b, double tol, const std::string& key,
          const D&... d) {
    st().evaluations++;
    double err = std::abs(a - b);
    if (!(err <= tol)) {
        violation(key, str("got ", a, " expected ", b, " |diff| ", err,
                           " tol ", tol, " ", d...));
        return false;
    }
    return true;
}

// Make an error text usable as a stable key: drop the numbers.
inline std::string normalise(const std::string& m) {
    std::string r;
    bool dig = false;
    for (char c : m) {
        if (std::isdigit((unsigned char)c)) {
            if (!dig) r += '#';
            dig = true;
        } else if (c == '\n') {
            break;
        } else {
            dig = false;
            r += c;
        }
    }
    return r.substr(0, 120);
}

// Run a legal case; any error hpGEM raises on it is a violation.
template <typename F>
bool guard(const std::string& key, F f) {
    try {
        f();
        return true;
    } catch (const HpgemError& e) {
        violation(key + ":error-on-legal-input:" + normalise(e.what()),
                  e.what());
    } catch (const std::exception& e) {
        violation(key + ":exception:" + normalise(e.what()), e.what());
    }
    return false;
}

using Rng = std::mt19937_64;
inline Rng rng(const std::string& stream) {
    return Rng(hashStr(stream) ^ (st().seed * 0x9E3779B97F4A7C15ull));
}
inline double uni(Rng& r, double a = 0, double b = 1) {
    return a + (b - a) * ((r() >> 11) * (1.0 / 9007199254740992.0));
}
inline std::size_t below(Rng& r, std::size_t n) { return n ? r() % n : 0; }
template <typename T>
void shuffle(std::vector<T>& v, Rng& r) {
    for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(r, i)]);
}

inline void writeReport() {
    State& s = st();
    if (s.out.empty()) return;
    std::ofstream o(s.out + ".tmp");
    o << "{\"finished\":" << (s.finished ? "true" : "false")
      << ",\"evaluations\":" << s.evaluations << ",\"cases\":" << s.cases
      << ",\"distinct\":[";
    // hashes are merged over the ranks/jobs by the driver
    bool f = true;
    for (auto h : s.distinct) {
        if (!f) o << ",";
        f = false;
        o << "\"" << std::hex << h << std::dec << "\"";
    }
    o << "],\"counters\":{";
    f = true;
    for (auto& c : s.counters) {
        if (!f) o << ",";
        f = false;
        o << "\"" << jsonEscape(c.first) << "\":" << c.second;
    }
    o << "},\"samples\":[";
    f = true;
    for (auto& c : s.samples) {
        if (!f) o << ",";
        f = false;
        o << "\"" << jsonEscape(c) << "\"";
    }
    o << "],\"violations\":[";
    f = true;
    for (auto& v : s.violations) {
        if (!f) o << ",";
        f = false;
        o << "{\"key\":\"" << jsonEscape(v.second.key) << "\",\"detail\":\""
          << jsonEscape(v.second.detail) << "\",\"case\":\""
          << jsonEscape(v.second.where) << "\",\"count\":" << v.second.count
          << "}";
    }
    o << "]}\n";
    o.close();
    rename((s.out + ".tmp").c_str(), s.out.c_str());
}

inline void quiet(std::string, std::string) {}
inline void raise(std::string module, std::string msg) {
    if (std::uncaught_exceptions()) return;   // while unwinding from an earlier one
    throw HpgemError(msg);
}

// Arguments: --vf-seed=, --vf-tier=, --vf-out=, --vf-x-NAME=VALUE; they are
// removed from argv so that hpGEM's own option parser does not see them.
inline void init(int& argc, char**& argv, int rank = -1) {
    State& s = st();
    int k = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.compare(0, 5, "--vf-") == 0) {
            auto eq = a.find('=');
            std::string n = a.substr(5, eq - 5),
                        v = eq == std::string::npos ? "" : a.substr(eq + 1);
            if (n == "seed")
                s.seed = strtoull(v.c_str(), nullptr, 10);
            else if (n == "tier")
                s.thorough = v == "thorough";
            else if (n == "out")
                s.out = v;
            else if (n == "scratch")
                s.scratch = v;
            else
                s.args[n] = v;
        } else {
            argv[k++] = argv[i];
        }
    }
    argc = k;
    argv[argc] = nullptr;
    if (!s.out.empty()) {
        const char* er = getenv("OMPI_COMM_WORLD_RANK");
        if (er && s.args.count("ranked")) s.out += std::string(".") + er;
        s.curFd = open((s.out + ".cur").c_str(), O_CREAT | O_RDWR | O_TRUNC,
                       0644);
    }
    static hpgem::LoggerOutput lo = {raise, raise, quiet, quiet,
                                     quiet, quiet, raise};
    hpgem::loggerOutput = &lo;
}
inline std::string arg(const std::string& n, const std::string& d = "") {
    auto it = st().args.find(n);
    return it == st().args.end() ? d : it->second;
}
inline int finish() {
    st().finished = true;
    writeReport();
    return st().violations.empty() ? 0 : 3;
}
}  // namespace vf
#endif
