// BOUNDS: intermediate results that are containers: of 70 elements (string, vector, deque, array), or lists, maps, sets and vectors of vectors of 2 to 4 elements, passed on along a chain with a side input and joined again at the top; 3 calls with arbitrary results in between
#define CHECK_VALUES
#define CHECK_EVALS
#include "common/nodes.inc"
#include "common/containers.inc"

template<typename T>
constexpr bool is_long = std::is_same_v<typename T::value_type, char> || std::is_same_v<T, std::vector<int>> || std::is_same_v<T, std::deque<short>>;
template<typename T>
static T content(unsigned p) {
    if constexpr (is_long<T>) return at<T>(p, vf_nondet_i8());
    else return build<T>();
}
template<typename T>
static void passed_on() {
    const unsigned p = is_long<T> ? places[vf_pick(5)] : 0;
    T now = content<T>(p);
    int version = 0, side = vf_nondet_i32(), e1 = 0, e2 = 0, e3 = 0;
    auto g = lazy([&](int) -> T { ++e1; return now; }, [&] { return version; });
    auto h = lazy([&](const T &x, int y) -> T {
        ++e2;
        CHECK("the arguments are current", x == now && y == side);
        return x;
    }, g, [&] { return side; });
    auto f = lazy([&](T x, const T &y) {
        ++e3;
        CHECK("both belong to the same state", x == now && y == now);
        return e3;
    }, h, g);
    Model<T, int> middle;
    Model<T> top;
    for (int i = 0; i < HIST(3); ++i) {
        middle.call(now, side), top.call(now);
        CHECK("up to date", f() == top.evaluations);
        CHECK("evaluated upon each change of the source", e1 == 2 * (i + 1));
        CHECK("evaluated if the result or the side input differs", e2 == middle.evaluations);
        CHECK("evaluated if the intermediate results differ", e3 == top.evaluations);
        if (i && e3 == i) COVER("stopped");
        if (e3 == i + 1) COVER("passed on");
        ++version;
        now = content<T>(p);
        side = vf_nondet_i32();
    }
}
HARNESS(c_string) { passed_on<std::string>(); }
HARNESS(c_vector) { passed_on<std::vector<int>>(); }
HARNESS(c_deque) { passed_on<std::deque<short>>(); }
HARNESS(c_array) { passed_on<std::array<char, 70>>(); }
HARNESS(c_list) { passed_on<List>(); }
HARNESS(c_map) { passed_on<Map>(); }
HARNESS(c_set) { passed_on<Set>(); }
HARNESS(c_names) { passed_on<Names>(); }
HARNESS(c_rows) { passed_on<Rows>(); }
