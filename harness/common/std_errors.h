// <stdexcept>: the members of the exceptions that are part of libstdc++.so, for the symbolic executor
#pragma once
#include <exception>
#include <stdexcept>
#include <system_error>
#ifdef VF_SYMBOLIC
namespace std {
inline const char *vf_copied(const char *text) {
    size_t n = 0;
    while (text[n]) ++n;
    char *p = new char[n + 1];
    for (size_t i = 0; i <= n; ++i) p[i] = text[i];
    return p;
}
#define VF_ERROR(name)                                              \
    name::name(const char *text) { _M_msg._M_p = vf_copied(text); } \
    name::name(const string &text) : name(text.c_str()) {}          \
    name::name(const name &o) noexcept : exception(o) { _M_msg._M_p = vf_copied(o._M_msg._M_p); } \
    name::~name() noexcept { delete[] _M_msg._M_p; }                \
    const char *name::what() const noexcept { return _M_msg._M_p; }
__cow_string::__cow_string() : _M_p{ nullptr } {}
__cow_string::~__cow_string() {}
VF_ERROR(logic_error)
VF_ERROR(runtime_error)
#define VF_DERIVED(name, base)                         \
    name::name(const char *text) : base(text) {}       \
    name::name(const string &text) : base(text) {}     \
    name::~name() noexcept {}
VF_DERIVED(domain_error, logic_error)
VF_DERIVED(invalid_argument, logic_error)
VF_DERIVED(length_error, logic_error)
VF_DERIVED(out_of_range, logic_error)
VF_DERIVED(range_error, runtime_error)
VF_DERIVED(overflow_error, runtime_error)
VF_DERIVED(underflow_error, runtime_error)
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
} // namespace std
#endif
