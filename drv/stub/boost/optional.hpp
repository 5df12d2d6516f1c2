// Stand-in for boost::optional: the client assigns values that convert to the content (srcml_input_src to
// std::string), which the Boost it was written for allowed and the installed one does not.
#ifndef VERIF_OPTIONAL
#define VERIF_OPTIONAL
#include <cstdlib>
#include <memory>
#include <utility>
namespace boost {
struct none_t {};
static const none_t none{};
template <typename T>
class optional {
    bool has = false;
    T v{};
    void need() const { if (!has) abort(); }
public:
    typedef T value_type;
    optional() {}
    optional(none_t) {}
    optional(const T& t) : has(true), v(t) {}
    optional(T&& t) : has(true), v(std::move(t)) {}
    optional& operator=(none_t) { has = false; v = T(); return *this; }
    optional& operator=(const T& t) { v = t; has = true; return *this; }
    explicit operator bool() const { return has; }
    bool operator!() const { return !has; }
    bool is_initialized() const { return has; }
    T& operator*() { need(); return v; }
    const T& operator*() const { need(); return v; }
    T* operator->() { need(); return &v; }
    const T* operator->() const { need(); return &v; }
    T& get() { need(); return v; }
    const T& get() const { need(); return v; }
    void reset() { has = false; v = T(); }
};
template <typename T> bool operator==(const optional<T>& a, none_t) { return !a; }
template <typename T> bool operator!=(const optional<T>& a, none_t) { return bool(a); }
template <typename T> bool operator==(const optional<T>& a, const T& b) { return a && *a == b; }
template <typename T> bool operator!=(const optional<T>& a, const T& b) { return !(a && *a == b); }
}
#endif
