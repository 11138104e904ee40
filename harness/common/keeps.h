#pragma once
#define CONTAINERS
#include "common/values.h"
#include "common/lazy_common.h"

// a function that owns its state
template<typename S>
struct Keeps {
    S s;
    int calls = 0;
    int operator()() { return step(0); }
    int operator()(int x, int y) { return step(vf_uf(1, x, y)); }
    int step(int x) {
        ++calls;
        if constexpr (requires { s.push_back('x'); }) {
            s.push_back(char(x));
            int n = 0;
            for (char c : s) n += c;
            return n * 64 + int(s.size());
        } else if constexpr (requires { s.find(2); }) {
            s[calls] = char(x);
            int n = 0;
            for (auto [k, v] : s) n += k * v;
            return n;
        } else return s[s.size() - 3] += x * calls + 1;
    }
};
