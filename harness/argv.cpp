// C26: the argument parser against a model that reads the command line itself.
#include "vf.hpp"

#include <locale>
#include <xitren/func/argv_parser.hpp>

#include <cmath>
#include <optional>

using vf::Src;
using vf::tr;

struct Opts {
    std::string s0 = "first default", s1{}, s2 = "x";
    int         i0 = 17, i1 = -4, i2{};
    double      d0 = 0.5, d1{}, d2 = -1e300;
    bool        b0{}, b1 = false, b2 = true, b3{};
};
using P = xitren::func::argv_parser<Opts>;

struct Field {
    int kind, idx;    // kind: 0 string 1 int 2 double 3 flag
};
static std::string Opts::* const S[] = {&Opts::s0, &Opts::s1, &Opts::s2};
static int Opts::* const         I[] = {&Opts::i0, &Opts::i1, &Opts::i2};
static double Opts::* const      D[] = {&Opts::d0, &Opts::d1, &Opts::d2};
static bool Opts::* const        B[] = {&Opts::b0, &Opts::b1, &Opts::b2, &Opts::b3};

static std::string const pool[]
    = {"-n",    "--n",   "-no",        "--no",   "--name", "--names", "--nam", "name",   "-v",         "--verbose", "--verbos", "-x",   "-X",
       "--out", "--out=", "--out-file", "-o",     "-",      "--",      "+r",    "/s",     "--with space", "-1",       "--ratio",  "--r.a", "\xd1\x8f",
       "--very-long-option-name-that-does-not-fit-a-small-string", "--very-long-option-name-that-does-not-fit-a-small-strin", "--very-long-option-name-that-does-not-fit-a-small-string2"};

struct World {
    Src&                                       s;
    std::vector<std::pair<std::string, Field>> opts;
    explicit World(Src& src) : s{src} {}

    bool
    registered(std::string const& a) const
    {
        for (auto& o : opts)
            if (o.first == a)
                return true;
        return false;
    }
    std::string
    random_text()
    {
        static constexpr char const cs[] = "abcXYZ019 -=_.,\t\n\"'\\\x01\xff/@%";
        std::string r;
        for (auto n = s.below(s.chance(1, 8) ? 60 : 10); n; n--)
            r += cs[s.below(sizeof cs - 1)];
        return r;
    }
    std::string
    a_string()
    {
        switch (s.below(7)) {
        case 0:
            return "";
        case 1:
            return "two words";
        case 2:
            return "-5";
        case 3:
            return "key=value with  spaces ";
        default:
            return random_text();
        }
    }
    std::string
    an_int(int& v)
    {
        switch (s.below(8)) {
        case 0:
            v = 0;
            break;
        case 1:
            v = INT32_MAX;
            break;
        case 2:
            v = INT32_MIN;
            break;
        case 3:
            v = static_cast<int>(s.range(-10, 10));
            break;
        default:
            v = static_cast<int>(static_cast<std::uint32_t>(s.u64()));
        }
        std::string t = std::to_string(v);
        if (v > 0 && s.chance(1, 8))
            t = "+" + t;
        if (v > 0 && s.chance(1, 10))
            t = std::string(1 + s.below(3), '0') + (t[0] == '+' ? t.substr(1) : t);
        return t;
    }
    std::string
    a_double(double& v)
    {
        char b[420];
        switch (s.below(7)) {
        case 0: {
            static char const* const fixed[] = {"0", "-0.0", "1", ".5", "5.", "-1e10", "1E-5", "+2.25", "123456789.123456789", "0.1", "1e308", "2.2250738585072014e-308",
                                                "3.141592653589793238462643383279", "00012.50", "9007199254740993", "-7"};
            std::snprintf(b, sizeof b, "%s", fixed[s.below(std::size(fixed))]);
            break;
        }
        case 1:
            std::snprintf(b, sizeof b, "%lld", static_cast<long long>(s.range(-1000000, 1000000)));
            break;
        case 2:
            std::snprintf(b, sizeof b, "%.3f", static_cast<double>(s.range(-1000000, 1000000)) / 1000);
            break;
        default: {
            double x;
            do {
                std::uint64_t u = s.u64();
                std::memcpy(&x, &u, 8);
                if (s.dry())
                    x = 1.5;
            } while (!std::isfinite(x) || std::fabs(x) < 1e-300);
            std::snprintf(b, sizeof b, s.chance(1, 3) ? "%.17g" : s.chance(1, 2) ? "%.17e" : "%.20f", x);
            if (std::strlen(b) > 380)
                std::snprintf(b, sizeof b, "%.17g", x);
        }
        }
        v = std::strtod(b, nullptr);
        return b;
    }
    std::string
    unknown()
    {
        for (;;) {
            std::string a;
            switch (s.below(5)) {
            case 0:
                a = pool[s.below(std::size(pool))];
                break;
            case 1:    // resembles a registered one
                if (!opts.empty()) {
                    a = s.pick(opts).first;
                    switch (s.below(6)) {
                    case 0:
                        a += "x";
                        break;
                    case 1:
                        a.pop_back();
                        break;
                    case 2:
                        a = "-" + a;
                        break;
                    case 3:
                        a += "=5";
                        break;
                    case 4:
                        a[a.size() - 1] ^= 0x20;
                        break;
                    default:
                        a += " ";
                    }
                    break;
                }
                [[fallthrough]];
            case 2:
                a = std::to_string(s.range(-100, 100));
                break;
            default:
                a = random_text();
            }
            if (!registered(a))
                return a;
            if (s.dry())
                return "nothing of the kind";
        }
    }

    void
    run()
    {
        // register a random subset of the fields under random different names
        std::vector<Field> fields;
        for (int i = 0; i < 3; i++) {
            fields.push_back({0, i});
            fields.push_back({1, i});
            fields.push_back({2, i});
            fields.push_back({3, i});
        }
        fields.push_back({3, 3});
        std::vector<std::string> names(std::begin(pool), std::end(pool));
        std::size_t const        n = s.chance(1, 20) ? 0 : 1 + s.below(s.chance(1, 2) ? 5 : fields.size());
        for (std::size_t k = 0; k < n; k++) {
            std::size_t f = s.below(fields.size()), m = s.below(names.size());
            opts.push_back({names[m], fields[f]});
            fields.erase(fields.begin() + static_cast<long>(f));
            names.erase(names.begin() + static_cast<long>(m));
        }
        auto param = [](Field f) -> P::parameter_type {
            switch (f.kind) {
            case 0:
                return S[f.idx];
            case 1:
                return I[f.idx];
            case 2:
                return D[f.idx];
            default:
                return B[f.idx];
            }
        };
        std::vector<P::argument_type> a;
        for (auto& o : opts)
            a.push_back({o.first, param(o.second)});
        auto make = [&]() -> std::unique_ptr<P> {
#define A(i) a[i]
            switch (a.size()) {
            case 0:
                return P::instance({});
            case 1:
                return P::instance({A(0)});
            case 2:
                return P::instance({A(0), A(1)});
            case 3:
                return P::instance({A(0), A(1), A(2)});
            case 4:
                return P::instance({A(0), A(1), A(2), A(3)});
            case 5:
                return P::instance({A(0), A(1), A(2), A(3), A(4)});
            case 6:
                return P::instance({A(0), A(1), A(2), A(3), A(4), A(5)});
            case 7:
                return P::instance({A(0), A(1), A(2), A(3), A(4), A(5), A(6)});
            case 8:
                return P::instance({A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7)});
            case 9:
                return P::instance({A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8)});
            case 10:
                return P::instance({A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9)});
            case 11:
                return P::instance({A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10)});
            case 12:
                return P::instance({A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11)});
            default:
                return P::instance({A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12)});
            }
#undef A
        };
        // ---- the command line, and what it means
        Opts                     want;
        bool                     unsure[3][3] = {};    // [kind-1][idx]: the last value was malformed: unspecified
        std::vector<std::string> args;
        if (!s.chance(1, 30))
            args.push_back(s.chance(1, 4) ? unknown() : "prog");
        std::size_t const len = s.below(s.chance(1, 4) ? 40 : 12);
        bool              with_value = false;
        for (std::size_t k = 0; k < len; k++) {
            if (opts.empty() || s.chance(2, 7)) {
                args.push_back(unknown());
                continue;
            }
            auto& o = s.pick(opts);
            args.push_back(o.first);
            Field f = o.second;
            if (f.kind == 3) {
                want.*B[f.idx] = true;
                vf::count("argv.flags");
                continue;
            }
            // a value that is no registered name
            std::string v;
            for (int tries = 0;; tries++) {
                if (f.kind == 0) {
                    v = a_string();
                    if (registered(v) && tries < 20)
                        continue;
                    if (registered(v))
                        v = "plain";
                    want.*S[f.idx] = v;
                } else if (f.kind == 1) {
                    if (s.chance(1, 12)) {
                        v = s.chance(1, 2) ? random_text() : "99999999999";
                        if (registered(v))
                            v = "zz";
                        unsure[0][f.idx] = true;
                    } else {
                        int x;
                        v = an_int(x);
                        if (registered(v) && tries < 20)
                            continue;
                        if (registered(v)) {
                            v = "5";
                            x = 5;
                        }
                        want.*I[f.idx]   = x;
                        unsure[0][f.idx] = false;
                    }
                } else {
                    if (s.chance(1, 12)) {
                        v = s.chance(1, 2) ? random_text() : "1e99999";
                        if (registered(v))
                            v = "zz";
                        unsure[1][f.idx] = true;
                    } else {
                        double x;
                        v = a_double(x);
                        if (registered(v) && tries < 20)
                            continue;
                        if (registered(v)) {
                            v = "5";
                            x = 5;
                        }
                        want.*D[f.idx]   = x;
                        unsure[1][f.idx] = false;
                    }
                }
                break;
            }
            args.push_back(v);
            with_value = true;
            vf::count("argv.values");
        }
        if (!opts.empty() && s.chance(1, 4)) {    // an option without a value at the end
            auto& o = s.pick(opts);
            args.push_back(o.first);
            if (o.second.kind == 3)
                want.*B[o.second.idx] = true;
            else
                vf::count("argv.option_at_end");
        }
        // exactly sized storage, no terminating null pointer
        std::vector<std::unique_ptr<char[]>> store;
        std::unique_ptr<char const*[]>       argv(new char const*[args.size()]);
        for (std::size_t k = 0; k < args.size(); k++) {
            store.emplace_back(new char[args[k].size() + 1]);
            std::memcpy(store.back().get(), args[k].c_str(), args[k].size() + 1);
            argv[k] = store.back().get();
            vf::mix(std::hash<std::string>{}(args[k]));
        }
        std::string line;
        for (auto& x : args)
            line += "[" + x + "] ";
        std::string reg;
        for (auto& o : opts)
            reg += o.first + ":" + "sidf"[o.second.kind] + std::to_string(o.second.idx) + " ";
        tr("registered %s\nargs %s", reg.c_str(), line.c_str());
        // embedded zero bytes never occur: the texts are C strings
        auto p = make();
        auto check = [&](Opts const& got, char const* where) {
            for (int i = 0; i < 3; i++) {
                VF_EXPECT("C26", got.*S[i] == want.*S[i], "string", "%s: string option %d is [%s], not [%s]", where, i, (got.*S[i]).c_str(), (want.*S[i]).c_str());
                VF_EXPECT("C26", unsure[0][i] || got.*I[i] == want.*I[i], "int", "%s: integer option %d is %d, not %d", where, i, got.*I[i], want.*I[i]);
                VF_EXPECT("C26", unsure[1][i] || std::memcmp(&(got.*D[i]), &(want.*D[i]), 8) == 0, "double", "%s: floating-point option %d is %.17g, not %.17g", where, i,
                          got.*D[i], want.*D[i]);
            }
            for (int i = 0; i < 4; i++)
                VF_EXPECT("C26", got.*B[i] == want.*B[i], "flag", "%s: flag %d is %d, not %d", where, i, got.*B[i], want.*B[i]);
        };
        Opts got = p->parse(static_cast<int>(args.size()), argv.get());
        for (auto& st : store)    // the result stands on its own
            std::memset(st.get(), 'Z', 1);
        argv.reset();
        store.clear();
        check(got, "returned");
        check(*p, "parser");
        p.reset();
        check(got, "kept");
        vf::count("argv.parses");
        if (with_value)
            vf::nontrivial();
    }
};
class Punct : public std::numpunct<char> {
    char        point_, sep_;
    std::string group_;

public:
    Punct(char point, char sep, std::string group) : point_{point}, sep_{sep}, group_{std::move(group)} {}

protected:
    char do_decimal_point() const override { return point_; }
    char do_thousands_sep() const override { return sep_; }
    std::string do_grouping() const override { return group_; }
};
void
vf_case(Src& s)
{
    // the program's own locale, which may write numbers in any way
    auto const l = s.below(8);
    struct Global {
        std::locale old;
        explicit Global(std::locale const& n) : old{std::locale::global(n)} {}
        ~Global() { std::locale::global(old); }
    };
    if (l < 6) {
        World w(s);
        w.run();
    } else {
        Global g{std::locale(std::locale::classic(), new Punct(s.chance(1, 2) ? ',' : '5', s.chance(1, 2) ? '.' : '1', s.chance(1, 2) ? "\3" : s.chance(1, 2) ? "\2\1" : ""))};
        tr("the program writes numbers in its own way");
        World w(s);
        w.run();
        vf::count("argv.odd_locale");
    }
}
// Long command lines and long values.
static void
long_line(std::size_t n, std::size_t value)
{
    auto p = P::instance({{"--name", &Opts::s0}, {"-n", &Opts::i0}, {"--ratio", &Opts::d0}, {"-v", &Opts::b0}, {"--out", &Opts::s1}, {"-x", &Opts::b1}});
    std::vector<std::string> a(n, "pad");
    a[0] = "prog";
    std::string const early(value, 'e'), late(value + 1, 'l');
    a[1] = "--name";
    a[2] = early;
    a[3] = "-n";
    a[4] = "12";
    // the last arguments decide, and the option at the end has no value
    std::size_t k = n - 9;
    a[k++]        = "--name";
    a[k++]        = late;
    a[k++]        = "-n";
    a[k++]        = "-2147483648";
    a[k++]        = "-v";
    a[k++]        = "--ratio";
    a[k++]        = "-0.1";
    a[k++]        = "padding";
    a[k++]        = "--out";
    std::vector<char const*> v;
    for (auto& x : a)
        v.push_back(x.c_str());
    v.shrink_to_fit();
    Opts got = p->parse(static_cast<int>(n), v.data());
    tr("%zu arguments, values of %zu bytes", n, value);
    VF_EXPECT("C26", got.s0 == late, "long-string", "of %zu arguments: string of %zu bytes became one of %zu", n, late.size(), got.s0.size());
    VF_EXPECT("C26", got.i0 == INT32_MIN && got.d0 == -0.1 && got.b0 && !got.b1, "long-line", "of %zu arguments: %d %g %d %d", n, got.i0, got.d0, int(got.b0), int(got.b1));
    VF_EXPECT("C26", got.s1.empty() && got.s2 == "x" && got.i1 == -4 && got.b2, "long-others", "of %zu arguments: another field changed", n);
    vf::count("argv.parses");
    vf::count("argv.long");
}
void
vf_directed()
{
    long_line(300, 300);
    long_line(40000, 70000);
    long_line(70000, 3);
}
