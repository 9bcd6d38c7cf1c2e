// Stand-in for the part of fmt >= 10.2 that kep3 relies on and the installed fmt 9.1 lacks: formatting a system_clock time
// point of microsecond period ("%T"/"%S" print the six fractional digits, any date, including before 1970).
#pragma once
#include_next <fmt/chrono.h>
#if FMT_VERSION < 100000
#include <chrono>
#include <ctime>
#include <string>
template <>
struct fmt::formatter<std::chrono::time_point<std::chrono::system_clock, std::chrono::microseconds>, char> {
    fmt::string_view specs{"%F %T"};
    constexpr auto parse(fmt::format_parse_context &ctx) -> fmt::format_parse_context::iterator
    {
        auto b = ctx.begin(), e = b;
        while (e != ctx.end() && *e != '}') ++e;
        if (e != b) specs = fmt::string_view(&*b, static_cast<std::size_t>(e - b));
        return e;
    }
    template <typename Ctx>
    auto format(std::chrono::time_point<std::chrono::system_clock, std::chrono::microseconds> tp, Ctx &ctx) const -> decltype(ctx.out())
    {
        long long us = tp.time_since_epoch().count(), s = us / 1000000, fr = us % 1000000;
        if (fr < 0) fr += 1000000, s -= 1;
        std::time_t t = static_cast<std::time_t>(s);
        std::tm tm{};
        gmtime_r(&t, &tm);
        long long y = tm.tm_year + 1900LL;
        std::string ys = y < 0 ? fmt::format("-{:03}", -y) : fmt::format("{:04}", y), o;
        auto sec = [&] { return fmt::format("{:02}.{:06}", tm.tm_sec, fr); };
        for (std::size_t i = 0; i < specs.size(); ++i) {
            if (specs[i] != '%' || i + 1 == specs.size()) {
                o += specs[i];
                continue;
            }
            char c = specs[++i];
            switch (c) {
                case 'F': o += ys + fmt::format("-{:02}-{:02}", tm.tm_mon + 1, tm.tm_mday); break;
                case 'T': o += fmt::format("{:02}:{:02}:", tm.tm_hour, tm.tm_min) + sec(); break;
                case 'Y': o += ys; break;
                case 'S': o += sec(); break;
                case '%': o += '%'; break;
                default: {
                    char f[3] = {'%', c, 0}, buf[128];
                    o.append(buf, std::strftime(buf, sizeof buf, f, &tm));
                }
            }
        }
        auto out = ctx.out();
        for (char c : o) *out++ = c;
        return out;
    }
};
#endif
