#include "common/graph_typed.inc"

HARNESS(p_points) { passed_on<std::pair<Point, Point>>(); }
HARNESS(p_shorts) { passed_on<std::array<short, 2>>(); }
HARNESS(p_view) { passed_on<std::string_view>(); }
HARNESS(p_either) { passed_on<Either>(); }
