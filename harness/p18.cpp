// P18: epochs in every calendar representation (every day of the years 0..9999, ...).  P19: histories of epoch arithmetic.
#include <kep3/core_astro/convert_julian_dates.hpp>
#include <kep3/epoch.hpp>

#include <sstream>

#include "orbits.hpp"

using chk::Case;
using kep3::epoch;
using I = std::int64_t;
using Q = __float128;
using JT = epoch::julian_type;

namespace
{
constexpr I DAY = 86400000000LL;
// ---- independent proleptic Gregorian calendar: microseconds since 1970-01-01T00:00:00
bool leap(I y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int mdays(I y, int m)
{
    static const int d[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : d[m - 1];
}
constexpr I YMIN = -32767, YMAX = 32767;
const std::vector<I> &year_table() // days from 1970-01-01 to the first of January of each year
{
    static std::vector<I> t = [] {
        std::vector<I> r(static_cast<size_t>(YMAX - YMIN + 2));
        r[static_cast<size_t>(1970 - YMIN)] = 0;
        for (I y = 1971; y <= YMAX + 1; ++y) r[static_cast<size_t>(y - YMIN)] = r[static_cast<size_t>(y - 1 - YMIN)] + (leap(y - 1) ? 366 : 365);
        for (I y = 1969; y >= YMIN; --y) r[static_cast<size_t>(y - YMIN)] = r[static_cast<size_t>(y + 1 - YMIN)] - (leap(y) ? 366 : 365);
        return r;
    }();
    return t;
}
I civil(I y, int m, int d, I h = 0, I mi = 0, I s = 0, I us = 0)
{
    I n = year_table()[static_cast<size_t>(y - YMIN)];
    for (int k = 1; k < m; ++k) n += mdays(y, k);
    n += d - 1;
    return n * DAY + ((h * 60 + mi) * 60 + s) * 1000000LL + us;
}
const I Y2K = civil(2000, 1, 1), MJD0 = civil(1858, 11, 17), JD0 = civil(-4713, 11, 24, 12); // 1 January 4713 BC (Julian), noon
I cnt(const epoch &e) { return static_cast<I>(e.get_tp().time_since_epoch().count()); }
std::string iso(I y, int m, int d, I h, I mi, I s, I us)
{
    char b[64];
    std::snprintf(b, sizeof b, "%04lld-%02d-%02dT%02lld:%02lld:%02lld.%06lld", static_cast<long long>(y), m, d, static_cast<long long>(h), static_cast<long long>(mi), static_cast<long long>(s), static_cast<long long>(us));
    return b;
}
bool near(double v, I us, I zero)
{
    Q w = Q(us - zero) / Q(DAY);
    return fabsq(Q(v) - w) <= Q(4) * Q(2.220446049250313e-16) * fabsq(w) + Q(1e-300);
}
struct Dt {
    I y;
    int m, d;
    I h, mi, s, us;
    std::string str() const { return iso(y, m, d, h, mi, s, us); }
};
void numbers(Case &c, const epoch &e, I want, const std::string &w)
{
    if (cnt(e) != want) c.fail("instant|" + w, "is " + std::to_string(cnt(e)) + " us from 1970, expected " + std::to_string(want));
    if (!near(e.mjd2000(), want, Y2K)) c.fail("mjd2000|" + w, chk::d2s(e.mjd2000()));
    if (!near(e.mjd(), want, MJD0)) c.fail("mjd|" + w, chk::d2s(e.mjd()));
    if (!near(e.jd(), want, JD0)) c.fail("jd|" + w, chk::d2s(e.jd()));
}
void julian(Case &c, double x, JT t, const std::string &w)
{
    I zero = t == JT::MJD2000 ? Y2K : t == JT::MJD ? MJD0 : JD0;
    epoch e(x, t);
    Q real = Q(x) * Q(DAY) + Q(zero);
    Q tol = 1 + Q(4) * Q(2.220446049250313e-16) * fabsq(Q(x)) * Q(DAY);
    if (!(fabsq(Q(cnt(e)) - real) <= tol)) c.fail("from_julian|" + w, "type " + std::to_string(static_cast<int>(t)) + " value " + chk::d2s(x) + " instant " + std::to_string(cnt(e)));
    c.eval();
}
void full(Case &c, const Dt &q)
{
    I want = civil(q.y, q.m, q.d, q.h, q.mi, q.s, q.us);
    auto w = q.str();
    c.state(chk::mix(99, static_cast<std::uint64_t>(want)));
    c.trace();
    epoch e(static_cast<int>(q.y), static_cast<unsigned>(q.m), static_cast<unsigned>(q.d), static_cast<int>(q.h), static_cast<int>(q.mi), static_cast<int>(q.s), static_cast<int>(q.us / 1000), static_cast<int>(q.us % 1000));
    numbers(c, e, want, w);
    c.trans(7);
    c.eval(7);
    epoch byus(static_cast<int>(q.y), static_cast<unsigned>(q.m), static_cast<unsigned>(q.d), static_cast<int>(q.h), static_cast<int>(q.mi), static_cast<int>(q.s), 0, static_cast<int>(q.us));
    if (cnt(byus) != want) c.fail("instant_us|" + w, "");
    julian(c, e.mjd2000(), JT::MJD2000, w);
    julian(c, e.mjd(), JT::MJD, w);
    julian(c, e.jd(), JT::JD, w);
    if (cnt(epoch(e.get_tp())) != want) c.fail("time_point|" + w, "");
    if (cnt(epoch(std::chrono::microseconds(want - Y2K))) != want) c.fail("from_duration|" + w, "duration since MJD2000 is not placed there");
    if (q.y >= 0 && q.y <= 9999) {
        auto s = e.as_utc_string();
        if (s != w) c.fail("printed|" + w, "prints " + s);
        if (epoch::as_utc_string(e.get_tp()) != s) c.fail("printed_static|" + w, "");
        try {
            if (cnt(epoch(w)) != want) c.fail("parsed|" + w, "instant " + std::to_string(cnt(epoch(w))));
        } catch (const std::exception &x) {
            c.fail("parse_rejected|" + w, x.what());
        }
    }
}
template <typename F>
bool raises(F &&f)
{
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    (void)th;
#if PROP == 18
    // ---- 1. every day of the years 0..9999 (one time of the day each; thorough: 6)
    run.section("days", 10000, [&](std::uint64_t i, Case &c) {
        static const I tod[12] = {0, DAY - 1, 1, DAY / 2, 1000000, 59999999, 3599999999LL, 43200000001LL, 3723004005LL, 86399000000LL, 61000999LL, 45296789012LL};
        I y = static_cast<I>(i);
        int n = 0;
        for (int m = 1; m <= 12; ++m)
            for (int d = 1; d <= mdays(y, m); ++d)
                for (int k = 0; k < (th ? 6 : 1); ++k, ++n) {
                    I t = tod[(static_cast<size_t>(n) * 5 + i) % 12];
                    full(c, {y, m, d, t / 3600000000LL, t / 60000000 % 60, t / 1000000 % 60, t % 1000000});
                }
    });
    // ---- 2. every second of a few days around special dates
    struct SD {
        I y;
        int m, d;
    };
    static const std::vector<SD> sd{{2000, 2, 29}, {1969, 12, 31}, {1970, 1, 1}, {1999, 12, 31}, {1900, 2, 28}, {2100, 3, 1}, {0, 1, 1}, {9999, 12, 31}, {1582, 10, 10}, {1858, 11, 16}};
    run.section("seconds", sd.size() * 240, [&](std::uint64_t i, Case &c) {
        auto &d = sd[i / 240];
        static const I us[8] = {0, 1, 999999, 500000, 120000, 1000, 99, 123456};
        for (I s = static_cast<I>(i % 240) * 360; s < static_cast<I>(i % 240 + 1) * 360; ++s)
            for (int k = 0; k < (th ? 8 : 1); ++k) full(c, {d.y, d.m, d.d, s / 3600, s / 60 % 60, s % 60, us[th ? k : s % 8]});
    });
    // ---- 3. every microsecond of a second (quick: a tenth of it)
    run.section("microseconds", 400, [&](std::uint64_t i, Case &c) {
        for (I us = static_cast<I>(i % 200) * 5000; us < static_cast<I>(i % 200 + 1) * 5000; us += th ? 1 : 37) full(c, i < 200 ? Dt{1969, 12, 31, 23, 59, 59, us} : Dt{2031, 7, 5, 6, 7, 8, us});
    });
    // ---- 4. first and last day of every month of every representable year
    run.section("years", static_cast<std::uint64_t>(YMAX - YMIN + 1), [&](std::uint64_t i, Case &c) {
        I y = YMIN + static_cast<I>(i);
        for (int m = 1; m <= 12; ++m) {
            full(c, {y, m, 1, 0, 0, 0, 0});
            full(c, {y, m, mdays(y, m), 23, 59, 59, 999999});
        }
    });
    // ---- 5. Julian dates: full and fractional values over the whole range
    run.section("julian", 3 * 400, [&](std::uint64_t i, Case &c) {
        auto t = static_cast<JT>(i % 3);
        I base = (static_cast<I>(i / 3) - 200) * 9973; // up to +- 2e6 days
        static const double fr[] = {0., 0.5, 0.25, 1. / 86400, 1. / 3, 0.999999999, 1e-11, 0.1, 1. / 86400e6};
        for (I k = 0; k < 60; ++k)
            for (double f : fr)
                for (int sg : {1, -1}) {
                    double x = static_cast<double>(base + k * 31) + sg * f;
                    c.trans();
                    c.trace();
                    c.state(chk::mixd(i % 3, x));
                    julian(c, x, t, chk::d2s(x));
                    numbers(c, epoch(x, t), cnt(epoch(x, t)), "julian " + chk::d2s(x));
                    if (t == JT::MJD2000 && cnt(epoch(x)) != cnt(epoch(x, t))) c.fail("default_julian_type|" + chk::d2s(x), "");
                }
    });
    // ---- 5b. conversions between the Julian day counts: exact up to one rounding
    run.section("julian_counts", 400, [&](std::uint64_t i, Case &c) {
        I base = (static_cast<I>(i) - 200) * 14983;
        static const double fr[] = {0., 0.5, 0.25, 1. / 86400, 1. / 3, 0.999999999, 1e-11, 0.1, 1. / 86400e6};
        const struct {
            const char *name;
            double (*f)(double);
            Q off;
        } cv[] = {{"jd2mjd", kep3::jd2mjd, -2400000.5Q},       {"jd2mjd2000", kep3::jd2mjd2000, -2451544.5Q}, {"mjd2jd", kep3::mjd2jd, 2400000.5Q},
                  {"mjd2mjd2000", kep3::mjd2mjd2000, -51544.Q}, {"mjd20002jd", kep3::mjd20002jd, 2451544.5Q},  {"mjd20002mjd", kep3::mjd20002mjd, 51544.Q}};
        for (I k = 0; k < 20; ++k)
            for (double f : fr) {
                double x = static_cast<double>(base + k * 31) + f;
                for (const auto &v : cv) {
                    c.trans();
                    c.eval();
                    c.state(chk::mixd(77, x));
                    double y = v.f(x);
                    Q want = Q(x) + v.off;
                    if (!(fabsq(Q(y) - want) <= (fabsq(want) + fabsq(Q(x))) * 3e-16Q)) c.fail(std::string(v.name) + "|" + chk::d2s(x), chk::d2s(y));
                }
            }
        c.trace();
    });
    // ---- 6. ISO strings: crops, fractions, malformed ones
    run.section("strings", 400, [&](std::uint64_t i, Case &c) {
        I y = static_cast<I>((i * 251 + 13) % 10000);
        int m = static_cast<int>(i % 12) + 1, d = static_cast<int>(i * 7 % static_cast<unsigned>(mdays(y, m))) + 1;
        I h = static_cast<I>(i * 5 % 24), mi = static_cast<I>(i * 11 % 60), s = static_cast<I>(i * 13 % 60), us = static_cast<I>((i * 765433 + 98765) % 1000000);
        auto w = iso(y, m, d, h, mi, s, us);
        for (size_t len = 0; len <= w.size() + 6; ++len) {
            std::string q = len <= w.size() ? w.substr(0, len) : w + std::string(len - w.size(), '7');
            bool ok = len == 7 || len == 10 || len == 13 || len == 16 || len == 19 || (len >= 21 && len <= 26);
            c.trans();
            c.eval();
            c.trace();
            c.state(chk::mix(chk::mix(4, i), len));
            I p10 = 1;
            for (size_t k = len; k < 26; ++k) p10 *= 10;
            I want = civil(y, m, len >= 10 ? d : 1, len >= 13 ? h : 0, len >= 16 ? mi : 0, len >= 19 ? s : 0, len >= 21 ? us / p10 * p10 : 0);
            try {
                epoch e(q);
                if (!ok)
                    c.fail("malformed_length_accepted|" + q, "");
                else if (cnt(e) != want)
                    c.fail("cropped_string|" + q, "instant " + std::to_string(cnt(e)) + " expected " + std::to_string(want));
            } catch (const std::exception &x) {
                if (ok) c.fail("valid_string_rejected|" + q, x.what());
            }
        }
        // every digit replaced by every printable non-digit, in every crop that contains it
        for (size_t len : {7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26})
            for (size_t p = 0; p < len; ++p) {
                if (!std::isdigit(static_cast<unsigned char>(w[p]))) continue;
                for (char ch = 32; ch < 127; ++ch) {
                    if (std::isdigit(static_cast<unsigned char>(ch)) || (p == 0 && (ch == '-' || ch == '+' || ch == ' '))) continue;
                    if (!th && (static_cast<unsigned>(ch) + p + i) % 5) continue;
                    std::string q = w.substr(0, len);
                    q[p] = ch;
                    c.trans();
                    c.eval();
                    if (!raises([&] { epoch e(q); })) c.fail("malformed_field_accepted|" + q, "");
                }
            }
        // out of range months and days
        for (int v = 0; v < 100; ++v) {
            char b[8];
            std::snprintf(b, sizeof b, "%02d", v);
            std::string q = w, r = w;
            q.replace(5, 2, b);
            r.replace(8, 2, b);
            c.trans(2);
            c.eval(2);
            bool bm = v < 1 || v > 12, bd = v < 1 || v > 31;
            if (raises([&] { epoch e(q); }) != bm) c.fail("month|" + q, bm ? "accepted" : "rejected");
            if (raises([&] { epoch e(r); }) != bd) c.fail("day|" + r, bd ? "accepted" : "rejected");
        }
        if (!raises([&] { epoch e(w, static_cast<epoch::string_format>(3)); })) c.fail("unknown_string_format_accepted|" + w, "");
        if (!raises([&] { epoch e(static_cast<double>(i), static_cast<JT>(5)); })) c.fail("unknown_julian_type_accepted|" + w, "");
        for (unsigned mm : {0u, 13u, 14u, 99u, 255u})
            if (!raises([&] { epoch e(static_cast<int>(y), mm, 1); })) c.fail("month_accepted|" + std::to_string(mm), "");
        for (unsigned dd2 : {0u, 32u, 40u, 255u})
            if (!raises([&] { epoch e(static_cast<int>(y), 1, dd2); })) c.fail("day_accepted|" + std::to_string(dd2), "");
        // streaming
        epoch e(w);
        std::ostringstream o;
        o << e;
        if (o.str() != w) c.fail("streamed|" + w, o.str());
        auto a = std::chrono::system_clock::now();
        auto now = epoch::now().get_tp();
        auto b = std::chrono::system_clock::now();
        if (now + std::chrono::microseconds(1) < a || now > b) c.fail("now", "");
        if (cnt(epoch()) != Y2K) c.fail("default", "");
    });
#else
    // ---- P19: all words of operations up to a depth; the model is a 64-bit count of microseconds
    struct Op {
        const char *name;
        I delta;
        std::function<void(epoch &)> f;
    };
    using namespace std::chrono;
    using ddays = duration<double, std::ratio<86400>>;
    using dsec = duration<double>;
    using namespace std::chrono_literals;
    static const std::vector<Op> ops{
        {"+=1us", 1, [](epoch &e) { e += 1us; }},
        {"-=1us", -1, [](epoch &e) { e -= 1us; }},
        {"+=-7ms", -7000, [](epoch &e) { e += -7ms; }},
        {"-=90s", -90000000, [](epoch &e) { e -= 90s; }},
        {"+=int32 days", 40000 * DAY, [](epoch &e) { e += duration<int, std::ratio<86400>>(40000); }},
        {"=+1h", 3600000000LL, [](epoch &e) { e = e + 1h; }},
        {"=-100000min", -6000000000000LL, [](epoch &e) { e = e - 100000min; }},
        {"=+5000ns", 5, [](epoch &e) { e = e + 5000ns; }},
        {"=-1500000ns", -1500, [](epoch &e) { e = e - 1500000ns; }},
        {"=+days(0.75)", DAY / 4 * 3, [](epoch &e) { e = e + ddays(0.75); }},
        {"-=double days -1234.5", DAY / 2 * 2469, [](epoch &e) { e -= ddays(-1234.5); }},
        {"+=epoch::days(-3.25)", -DAY / 4 * 13, [](epoch &e) { e += epoch::days(-3.25); }},
        {"=-epoch::sec(86400.5)", -DAY - 500000, [](epoch &e) { e = e - epoch::sec(86400.5); }},
        {"+=double sec 2^-6", 15625, [](epoch &e) { e += dsec(0.015625); }},
        {"=+years", 31556952LL * 1000000, [](epoch &e) { e = e + years(1); }},
        {"-=weeks", -14 * DAY, [](epoch &e) { e -= weeks(2); }},
        {"=+kep3 us 2^40", I(1) << 40, [](epoch &e) { e = e + kep3::microseconds(I(1) << 40); }},
        {"copy", 0, [](epoch &e) {
             epoch q(e);
             q += 3s;
             epoch r = q - 3s;
             e = r;
         }},
    };
    static const std::vector<epoch> starts{epoch(), epoch(1970, 1, 1), epoch(1969, 12, 31, 23, 59, 59, 999, 999), epoch(2000, 2, 29, 12), epoch(-1234, 5, 6), epoch(9999, 12, 31, 23, 59, 59, 999, 999), epoch(-0.5), epoch(2451545., JT::JD)};
    const int depth = th ? 6 : 5;
    run.section("histories", ops.size() * ops.size() * starts.size(), [&](std::uint64_t i, Case &c) {
        const epoch e0 = starts[i % starts.size()];
        const I z = cnt(e0);
        std::uint64_t k = i / starts.size();
        std::vector<size_t> w;
        auto verify = [&](const epoch &e, I want) {
            c.trans();
            c.eval();
            c.trace();
            auto name = [&] {
                std::string s = "start " + std::to_string(i % starts.size());
                for (size_t q : w) s += std::string(" ") + ops[q].name;
                return s;
            };
            if (cnt(e) != want) c.fail("moved|" + name(), "by " + std::to_string(cnt(e) - z) + " us instead of " + std::to_string(want - z));
            I d = static_cast<I>((e - e0).count()), d2 = static_cast<I>((e0 - e).count());
            if (d != want - z || d2 != z - want) c.fail("difference|" + name(), std::to_string(d));
            auto a = cnt(e);
            (void)a;
            if (cnt(e0) != z) c.fail("operand_modified|" + name(), "");
            bool lt = want < z, eq = want == z;
            if ((e < e0) != lt || (e0 > e) != lt || (e == e0) != eq || (e != e0) == eq || (e <= e0) != (lt || eq) || (e >= e0) != !lt || (e0 <= e) != !lt || (e0 >= e) != (lt || eq) || (e > e0) != (!lt && !eq) || (e0 < e) != (!lt && !eq)
                || (e0 == e) != eq)
                c.fail("order|" + name(), "");
        };
        std::function<void(const epoch &, I, int)> go = [&](const epoch &e, I m, int d) {
            for (size_t o = 0; o < ops.size(); ++o) {
                if (d == 0 && o != k % ops.size()) continue;
                if (d == 1 && o != k / ops.size()) continue;
                epoch q(e);
                w.push_back(o);
                ops[o].f(q);
                I m2 = m + ops[o].delta;
                c.state(chk::mix(chk::mix(19, i % starts.size()), static_cast<std::uint64_t>(m2)));
                verify(q, m2);
                if (d + 1 < depth) go(q, m2, d + 1);
                w.pop_back();
            }
        };
        go(e0, z, 0);
    });
    // temporaries and compound results: operands stay what they were, results are references to the left operand
    run.section("operands", ops.size() * starts.size(), [&](std::uint64_t i, Case &c) {
        epoch a = starts[i % starts.size()], b = starts[(i / starts.size()) % starts.size()];
        I za = cnt(a), zb = cnt(b);
        c.trans(6);
        c.eval();
        c.trace();
        c.state(chk::mix(5, i));
        auto d = a - b;
        auto s = b + d;
        auto t = a - d;
        if (cnt(a) != za || cnt(b) != zb) c.fail("operand_modified|binary", "");
        if (static_cast<I>(d.count()) != za - zb || !(s == a) || !(t == b)) c.fail("difference_moves|" + std::to_string(i), "");
        epoch &r = (a += d);
        if (&r != &a) c.fail("compound_result|+=", "");
        epoch &r2 = (a -= d);
        if (&r2 != &a || cnt(a) != za) c.fail("compound_result|-=", "");
        // helper durations: within a microsecond of the exact value
        for (double x : {0., 1., -1., 0.1, -0.3, 1e-7, 123456.789, -9876.54321, 365.25, 1. / 3}) {
            double v = x * static_cast<double>(i + 1);
            Q dd1 = Q(v) * Q(DAY), ds = Q(v) * 1000000;
            if (fabsq(Q(epoch::days(v).count()) - dd1) > 1 + fabsq(dd1) * 1e-15Q) c.fail("days|" + chk::d2s(v), "");
            if (fabsq(Q(epoch::sec(v).count()) - ds) > 1 + fabsq(ds) * 1e-15Q) c.fail("sec|" + chk::d2s(v), "");
            if (std::fabs(epoch::as_sec(epoch::sec(v)) - v) > 1e-6 + 1e-15 * std::fabs(v)) c.fail("as_sec|" + chk::d2s(v), "");
        }
    });
#endif
    return run.go();
}
