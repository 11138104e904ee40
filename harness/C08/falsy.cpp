// BOUNDS: results that equal an empty, zero or null one, or not, of 15 types, with an evaluation that fails (by an exception from the function or its dependency) at any subset of 3 calls
#include "common/values.h"
#include "common/lazy_common.h"

#include <map>
#include <string_view>
#include <variant>

template<typename T>
static T falsy_or_not(bool falsy) {
    if constexpr (std::is_same_v<T, const char *>) return falsy ? nullptr : "a";
    else if constexpr (std::is_same_v<T, int (*)()>) return falsy ? nullptr : +[] { return 1; };
    else if constexpr (std::is_same_v<T, std::optional<int>>) return falsy ? T{} : T{ 0 };
    else if constexpr (std::is_same_v<T, std::optional<std::optional<int>>>) return falsy ? T{} : T{ std::optional<int>{} };
    else if constexpr (std::is_same_v<T, std::variant<std::monostate, int>>) return falsy ? T{} : T{ 1 };
    else if constexpr (std::is_same_v<T, std::vector<int>>) return T(falsy ? 0 : 2);
    else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) return falsy ? "" : "a";
    else if constexpr (std::is_same_v<T, std::shared_ptr<int>>) { static auto p = std::make_shared<int>(3); return falsy ? nullptr : p; }
    else if constexpr (std::is_same_v<T, std::pair<int, int>> || std::is_same_v<T, std::array<int, 2>>) { T v{}; std::get<0>(v) = !falsy; return v; }
    else if constexpr (std::is_same_v<T, std::tuple<>>) return {};
    else return T(falsy ? 0 : 1);
}

template<typename T>
static void falsy() {
    bool now = vf_nondet_bool();
    unsigned fail = 0;
    int version = 0, e = 0;
    auto f = lazy([&](int) -> T { ++e; if (fail == 2) throw 7; return falsy_or_not<T>(now); }, [&] { if (fail == 1) throw 7; return version; });
    auto top = lazy([](const T &x, bool twice) { return std::pair<T, int>(x, twice); }, f, true);
    bool known = false, again = true; // what is cached is current; there is nothing that could be reused
    int evaluations = 0;
    for (int i = 0; i < HIST(3); ++i) {
        fail = vf_pick(3);
        try {
            auto r = top();
            CHECK("up to date", r.first == falsy_or_not<T>(now) && r.second == 1);
            CHECK("a failure is not hidden", fail == 0 || fail == 2 && e == evaluations && !again);
            CHECK("evaluated when needed", known ? e == evaluations : e <= evaluations + 1 && (!again || e == evaluations + 1));
            known = true, again = false;
            COVER("value");
        } catch (int x) {
            CHECK("only the exception that has been thrown", x == 7 && (fail == 1 || fail == 2 && !known));
            CHECK("evaluated when needed", e == evaluations + (fail == 2));
            known = false, again |= fail == 2;
            COVER("exception");
        }
        evaluations = e;
        if (vf_choose(2)) ++version, known = false, again = true, now = vf_nondet_bool();
    }
}
HARNESS(f_bool) { falsy<bool>(); }
HARNESS(f_int) { falsy<int>(); }
HARNESS(f_enum) { falsy<Shade>(); }
HARNESS(f_text) { falsy<const char *>(); }
HARNESS(f_function) { falsy<int (*)()>(); }
HARNESS(f_optional) { falsy<std::optional<int>>(); }
HARNESS(f_optional2) { falsy<std::optional<std::optional<int>>>(); }
HARNESS(f_variant) { falsy<std::variant<std::monostate, int>>(); }
HARNESS(f_vector) { falsy<std::vector<int>>(); }
HARNESS(f_string) { falsy<std::string>(); }
HARNESS(f_view) { falsy<std::string_view>(); }
HARNESS(f_shared) { falsy<std::shared_ptr<int>>(); }
HARNESS(f_pair) { falsy<std::pair<int, int>>(); }
HARNESS(f_array) { falsy<std::array<int, 2>>(); }
HARNESS(f_nothing) { falsy<std::tuple<>>(); }
