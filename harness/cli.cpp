// P21: command line options. Every case declares random options in a fresh
// process and parses one random argument vector with the real parser; a model
// says which values result or that the vector has to be refused.
#include "vf.h"
#include <cerrno>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <limits>
#include <sys/wait.h>
#include <unistd.h>
#include <mpi.h>
#ifdef HPGEM_USE_SLEPC
#include <slepcsys.h>
#elif defined(HPGEM_USE_ANY_PETSC)
#include <petscsys.h>
#endif
#include "Base/CommandLineOptions.h"
#include "Base/CommandLineHelpers.h"

using namespace vf;
using namespace hpgem;

enum Kind { BOOL, INT, LONG, SIZE, DOUBLE, FLOAT, STRING };
static const char* kindName[] = {"bool", "int", "long", "size_t", "double", "float", "string"};

struct Value {
    bool b = false;
    long long i = 0;
    unsigned long long u = 0;
    double d = 0;
    float f = 0;
    std::string s;
};

struct Option {
    Kind kind;
    char tag;
    std::string name;
    bool required;
    Value def, want;
    bool used = false;
    Base::Detail::CommandLineOptionBase* base = nullptr;
};

template <typename T>
static T& valueOf(const Option& o) {
    return static_cast<Base::CommandLineOption<T>*>(o.base)->getValue();
}

static void declare(Option& o) {
    switch (o.kind) {
        case BOOL: o.base = &Base::register_argument<bool>(o.tag, o.name, "a flag", o.required, o.def.b); break;
        case INT: o.base = &Base::register_argument<int>(o.tag, o.name, "an int", o.required, (int)o.def.i); break;
        case LONG: o.base = &Base::register_argument<long>(o.tag, o.name, "a long", o.required, (long)o.def.i); break;
        case SIZE: o.base = &Base::register_argument<std::size_t>(o.tag, o.name, "a size", o.required, o.def.u); break;
        case DOUBLE: o.base = &Base::register_argument<double>(o.tag, o.name, "a double", o.required, o.def.d); break;
        case FLOAT: o.base = &Base::register_argument<float>(o.tag, o.name, "a float", o.required, o.def.f); break;
        case STRING: o.base = &Base::register_argument<std::string>(o.tag, o.name, "a string", o.required, o.def.s); break;
    }
}

static std::string randomText(Rng& r, bool word) {
    static const std::string any = "abcXYZ019 -_=,./:\t'\"\\*";
    static const std::string w = "abcdefgXYZ019_";
    std::string s;
    std::size_t n = below(r, word ? 8 : 14) + (word ? 1 : 0);
    for (std::size_t i = 0; i < n; ++i) s += word ? w[below(r, w.size())] : any[below(r, any.size())];
    return s;
}

static Value randomValue(Kind k, Rng& r, std::string& text) {
    Value v;
    auto digits = [&]() -> long long {
        switch (below(r, 4)) {
            case 0: return (long long)below(r, 10);
            case 1: return (long long)below(r, 100000);
            case 2: return (long long)below(r, 2147483647u);
            default: return 2147483647;
        }
    };
    char buf[64];
    switch (k) {
        case BOOL: v.b = true; break;
        case INT:
            v.i = digits();
            if (below(r, 2)) v.i = -v.i;
            text = str(below(r, 5) == 0 && v.i >= 0 ? "+" : "", v.i);
            if (below(r, 10) == 0) v.i = std::numeric_limits<int>::min(), text = str(v.i);
            break;
        case LONG:
            v.i = below(r, 2) ? digits() : (long long)(r() >> 1);
            if (below(r, 2)) v.i = -v.i;
            text = str(v.i);
            break;
        case SIZE:
            v.u = below(r, 2) ? digits() : r();
            text = str(v.u);
            break;
        case DOUBLE:
            v.d = uni(r, -1, 1) * std::pow(10., int(below(r, 300)) - 150);
            if (below(r, 4) == 0) v.d = double(digits());
            switch (below(r, 3)) {
                case 0: std::snprintf(buf, sizeof buf, "%.17g", v.d); break;
                case 1: std::snprintf(buf, sizeof buf, "%.17e", v.d); break;
                default: std::snprintf(buf, sizeof buf, "%.3f", v.d = double(digits()) / 8);
            }
            text = buf;
            v.d = std::strtod(buf, nullptr);
            break;
        case FLOAT:
            v.f = float(uni(r, -1000, 1000));
            std::snprintf(buf, sizeof buf, "%.9g", v.f);
            text = buf;
            break;
        case STRING:
            v.s = randomText(r, false);
            if (below(r, 4) == 0) v.s = below(r, 2) ? "-" + v.s : "--" + v.s;
            text = v.s;
            break;
    }
    return v;
}

// text that is not a value of the kind
static std::string malformed(Kind k, Rng& r) {
    bool real = k == DOUBLE || k == FLOAT;
    std::vector<std::string> bad = {"", "-", "abc", "12x", "x12", "--", "+", "1 2", "3,4"};
    if (!real) {
        bad.push_back("1.5");
        bad.push_back("1e3");
        bad.push_back(k == INT ? "2147483648" : "18446744073709551616");
        bad.push_back(k == INT ? "-2147483649" : "99999999999999999999999");
        if (k == SIZE) bad.push_back("-1");
        if (k == SIZE) bad.push_back("-20");
    } else {
        bad.push_back("1e");
        bad.push_back("1e+");
        bad.push_back(".");
        bad.push_back("1.2.3");
        bad.push_back("1e99999");
        bad.push_back("5,0");
    }
    return bad[below(r, bad.size())];
}

static std::string show(const std::vector<std::string>& v) {
    std::string s;
    for (auto& x : v) s += "[" + x + "] ";
    return s;
}

struct Report {
    std::vector<std::pair<std::string, std::string>> bad;
    std::uint64_t n = 0;
    template <typename... A>
    void check(bool ok, const std::string& key, const A&... d) {
        ++n;
        if (!ok) bad.emplace_back(key, str(d...));
    }
};

// runs in a fresh process
static void parseCase(Rng& r, Report& rep, std::string& what, std::string& flavour) {
    std::vector<Option> opts(1 + below(r, 8));
    auto& shorts = Base::Detail::getCLOMapping_short();
    auto& longs = Base::Detail::getCLOMapping_long();
    for (auto& o : opts) {
        o.kind = Kind(below(r, 7));
        o.tag = '\0';
        if (below(r, 3)) {
            char c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[below(r, 62)];
            if (!shorts.count(c)) o.tag = c;
        }
        do o.name = randomText(r, true);
        while (longs.count(o.name));
        // names may be prefixes of each other
        if (&o != &opts[0] && below(r, 4) == 0) {
            std::string p = opts[0].name + randomText(r, true);
            if (!longs.count(p)) o.name = p;
        }
        o.required = below(r, 4) == 0;
        std::string t;
        o.def = randomValue(o.kind, r, t);
        if (o.kind == BOOL) o.def.b = below(r, 4) == 0;
        o.want = o.def;
        declare(o);
    }
    std::vector<std::string> av = {"program"};
    bool refuse = false;
    flavour = "plain";
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < opts.size(); ++i) {
        if (opts[i].required || below(r, 3)) order.push_back(i);
        if (below(r, 10) == 0) order.push_back(i);
    }
    shuffle(order, r);
    std::vector<std::string> rest;
    // one thing that has to be refused, in some of the cases
    int wrong = below(r, 3) == 0 ? 1 + below(r, 6) : 0;
    if (wrong == 1) {  // drop a required option
        for (auto& o : opts)
            if (o.required) {
                std::size_t id = &o - &opts[0];
                std::vector<std::size_t> left;
                for (auto i : order)
                    if (i != id) left.push_back(i);
                order = left;
                flavour = "missing-required";
                break;
            }
    }
    std::size_t wrongAt = wrong >= 2 ? below(r, order.size() + 1) : ~std::size_t(0);
    for (std::size_t k = 0; k <= order.size(); ++k) {
        if (k == wrongAt) {
            if (wrong == 2) {
                std::string n;
                do n = randomText(r, true);
                while (longs.count(n));
                av.push_back("--" + n);
                refuse = true, flavour = "unknown-long";
            } else if (wrong == 3) {
                char c;
                do c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[below(r, 62)];
                while (shorts.count(c));
                av.push_back(std::string("-") + c);
                refuse = true, flavour = "unknown-short";
            } else if (wrong == 4) {
                av.push_back(below(r, 2) ? randomText(r, true) : below(r, 2) ? "-" : "");
                refuse = true, flavour = "stray-argument";
            } else if (wrong == 5) {
                for (auto& o : opts)
                    if (o.kind != BOOL && o.kind != STRING) {
                        av.push_back("--" + o.name);
                        av.push_back(malformed(o.kind, r));
                        refuse = true, flavour = str("malformed-", kindName[o.kind], "(", av.back(), ")");
                        break;
                    }
            } else if (wrong == 6 && k == order.size()) {
                for (auto& o : opts)
                    if (o.kind != BOOL) {
                        av.push_back(o.tag && below(r, 2) ? std::string("-") + o.tag : "--" + o.name);
                        refuse = true, flavour = "missing-value";
                        break;
                    }
            }
        }
        if (k == order.size()) break;
        Option& o = opts[order[k]];
        std::string text;
        Value v = randomValue(o.kind, r, text);
        std::string how;
        if (o.tag && below(r, 2)) {
            how = std::string("-") + o.tag;
            // flags may be joined in front
            if (below(r, 3) == 0)
                for (auto& f : opts)
                    if (f.kind == BOOL && f.tag && &f != &o && below(r, 2)) {
                        how = std::string("-") + f.tag + how.substr(1);
                        f.want.b = true;
                        f.used = true;
                        if (flavour == "plain") flavour = "joined";
                    }
        } else {
            how = "--" + o.name;
        }
        av.push_back(how);
        if (o.kind != BOOL) av.push_back(text);
        o.want = v;
        o.used = true;
    }
    std::size_t restAt = 0;
    if (below(r, 5) == 0 && flavour != "missing-value") {
        restAt = av.size();
        av.push_back("--");
        std::size_t n = below(r, 4);
        for (std::size_t i = 0; i < n; ++i) av.push_back(below(r, 2) ? "-vf_ignored" + str(i) : randomText(r, true));
        if (flavour == "plain") flavour = "rest";
    }
    // a required option that was only given inside joined flags counts as given
    for (auto& o : opts)
        if (o.required && !o.used) refuse = true;
    what = flavour + ": " + show(av);
    std::vector<std::string> keep = av;
    std::vector<char*> argv;
    for (auto& a : av) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    bool refused = false;
    std::string why;
    rep.check(!Base::parse_isDone(), "cli:done-before-parsing");
    try {
        Base::parse_options(int(av.size()), argv.data());
    } catch (const std::exception& e) {
        refused = true;
        why = e.what();
    }
    std::string base = flavour.substr(0, flavour.find('('));
    if (refuse) {
        rep.check(refused, "cli:accepted:" + base, what);
        return;
    }
    if (refused) {
        rep.check(false, "cli:refused:" + base, what, " because ", why);
        return;
    }
    rep.check(Base::parse_isDone(), "cli:not-done-after-parsing");
    for (auto& o : opts) {
        std::string key = str("cli:value:", kindName[o.kind], o.used ? ":given" : ":default");
        rep.check(o.base->isUsed() == o.used, str("cli:used:", kindName[o.kind]), o.name, " in ", what);
        switch (o.kind) {
            case BOOL: rep.check(valueOf<bool>(o) == o.want.b, key, o.name, " is ", valueOf<bool>(o), " in ", what); break;
            case INT: rep.check(valueOf<int>(o) == o.want.i, key, o.name, " is ", valueOf<int>(o), " in ", what); break;
            case LONG: rep.check(valueOf<long>(o) == o.want.i, key, o.name, " is ", valueOf<long>(o), " in ", what); break;
            case SIZE: rep.check(valueOf<std::size_t>(o) == o.want.u, key, o.name, " is ", valueOf<std::size_t>(o), " in ", what); break;
            case DOUBLE: rep.check(valueOf<double>(o) == o.want.d, key, o.name, " is ", valueOf<double>(o), " want ", o.want.d, " in ", what); break;
            case FLOAT: rep.check(valueOf<float>(o) == o.want.f, key, o.name, " is ", valueOf<float>(o), " want ", o.want.f, " in ", what); break;
            case STRING: rep.check(valueOf<std::string>(o) == o.want.s, key, o.name, " is [", valueOf<std::string>(o), "] in ", what); break;
        }
    }
    for (std::size_t i = 0; i < keep.size(); ++i)
        if (i != restAt || !restAt) rep.check(keep[i] == av[i], "cli:argument-changed", i);
    if (restAt) rep.check(argv[restAt] == argv[0], "cli:rest-not-handed-on", what);
}

template <std::size_t D>
static void pointCase(Rng& r) {
    std::string text = randomText(r, true).substr(0, below(r, 4));
    std::size_t start = text.size();
    LinearAlgebra::SmallVector<D> want, got;
    bool good = true;
    int wrong = below(r, 3) == 0 ? 1 + below(r, 3) : 0;
    std::size_t at = below(r, D);
    std::size_t end = 0;
    for (std::size_t d = 0; d < D; ++d) {
        std::string t;
        Value v = randomValue(below(r, 2) ? DOUBLE : INT, r, t);
        want[d] = std::strtod(t.c_str(), nullptr);
        if (wrong == 1 && d == at) {
            text += below(r, 2) ? "x" : ";1";
            good = false;
            break;
        }
        text += t;
        end = text.size();
        if (d + 1 < D) {
            if (wrong == 2 && d == at) {
                text += below(r, 2) ? ";" : ":";
                good = false;
                continue;
            }
            if (wrong == 3 && d == at) {
                good = false;
                if (below(r, 2)) text += ",";
                break;
            }
            text += ",";
            if (below(r, 5) == 0) text += " ";
        }
    }
    if (good && below(r, 2)) text += below(r, 2) ? ";rest" : ",4,5";
    begin("point " + text);
    bool refused = false;
    std::size_t e = 0;
    try {
        e = Base::parsePoint<D>(text, start, got);
    } catch (const std::exception&) {
        refused = true;
    }
    count("points");
    std::string key = str("cli:point", D);
    if (!good) {
        expect(refused, key + ":accepted", text);
        return;
    }
    if (!expect(!refused, key + ":refused", text)) return;
    expect(e == end, key + ":end", text, " stops at ", e, " want ", end);
    for (std::size_t d = 0; d < D; ++d) expect(got[d] == want[d], key + ":value", text, " coordinate ", d, " is ", got[d]);
}

int main(int argc, char** argv) {
    init(argc, argv);
    MPI_Init(&argc, &argv);
#ifdef HPGEM_USE_SLEPC
    SlepcInitialize(&argc, &argv, nullptr, nullptr);
    PetscPopSignalHandler();
#elif defined(HPGEM_USE_ANY_PETSC)
    PetscInitialize(&argc, &argv, nullptr, nullptr);
    PetscPopSignalHandler();
#endif
    {
        Rng r = rng("points" + arg("salt"));
        int n = st().thorough ? 200000 : 20000;
        for (int k = 0; k < n; ++k)
            switch (below(r, 3)) {
                case 0: pointCase<1>(r); break;
                case 1: pointCase<2>(r); break;
                default: pointCase<3>(r);
            }
    }
    int n = std::stoi(arg("cases", st().thorough ? "30000" : "3000"));
    for (int k = 0; k < n; ++k) {
        int p[2];
        if (pipe(p)) return 2;
        pid_t child = fork();
        if (child == 0) {
            close(p[0]);
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 1);
            if (!getenv("VF_SHOW")) dup2(null, 2);
            Rng r = rng(str("cli", arg("salt"), ":", k));
            Report rep;
            std::string what, flavour, out;
            parseCase(r, rep, what, flavour);
            auto clean = [](std::string s) {
                for (auto& c : s)
                    if (c == '\n') c = ' ';
                return s;
            };
            out = str(rep.n, "\n", clean(flavour), "\n", clean(what), "\n");
            for (auto& b : rep.bad) out += clean(b.first) + "\n" + clean(b.second) + "\n";
            ssize_t w = write(p[1], out.data(), out.size());
            (void)w;
            close(p[1]);
            _exit(0);
        }
        close(p[1]);
        std::string in;
        char buf[4096];
        ssize_t g;
        while ((g = read(p[0], buf, sizeof buf)) > 0) in.append(buf, g);
        close(p[0]);
        int status = 0;
        waitpid(child, &status, 0);
        std::istringstream is(in);
        std::string ne, flavour, what, key, detail;
        std::getline(is, ne);
        std::getline(is, flavour);
        std::getline(is, what);
        vf::begin(what);
        if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || ne.empty()) {
            violation("cli:parser-crashed", str("case ", k, " status ", status));
            continue;
        }
        st().evaluations += std::stoull(ne);
        count("parsed-" + flavour.substr(0, flavour.find('(')));
        distinct(flavour + str(what.size() / 12));
        while (std::getline(is, key) && std::getline(is, detail)) violation(key, detail);
    }
    int rc = finish();
    _exit(rc);
}
