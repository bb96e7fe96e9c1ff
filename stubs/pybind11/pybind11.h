// Minimal stand-in for pybind11 so that the binding can be parsed (never linked or run).
#pragma once
#include <string>
#include <memory>
#include <functional>
#include <vector>
#include <list>
#include <map>
#include <stdexcept>
typedef struct _object PyObject;
extern "C" int PyErr_CheckSignals();
extern "C" PyObject *PyErr_Occurred();
extern "C" void PyErr_SetString(PyObject *, const char *);
extern "C" void PyErr_Clear();
namespace pybind11 {
struct handle { PyObject *p = nullptr; };
struct object : handle { template <class T> T cast() const; };
struct none : object {};
struct args : object {};
struct kwargs : object {};
struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("") {} };
struct arg_v { const char *name; };
struct arg {
    explicit arg(const char *) {}
    template <class T> arg_v operator=(T &&) const { return arg_v{nullptr}; }
    arg &none(bool = true) { return *this; }
};
template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }
template <class F> struct init_f {};
template <class F, class = decltype(&F::operator())> init_f<F> init(F) { return {}; }
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class... G> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
struct scoped_ostream_redirect {};
struct scoped_estream_redirect {};
template <int N, int P> struct keep_alive {};
struct is_operator {};
class module_ {
public:
    const char *&doc();
    struct doc_proxy { template <class T> doc_proxy &operator=(T &&) { return *this; } };
    struct attr_t { doc_proxy operator()() const { return {}; } };
    template <class F, class... E> module_ &def(const char *, F &&, const E &...) { return *this; }
    doc_proxy attr(const char *) { return {}; }
};
typedef module_ module;
template <class T, class... O> class class_ {
public:
    template <class... E> class_(handle, const char *, const E &...) {}
    template <class... E> class_(module_ &, const char *, const E &...) {}
    template <class... A, class... E> class_ &def(const init_t<A...> &, const E &...) { return *this; }
    template <class A, class... E> class_ &def(const init_f<A> &, const E &...) { return *this; }
    template <class F, class... E> class_ &def(const char *, F &&, const E &...) { return *this; }
    template <class F, class... E> class_ &def_static(const char *, F &&, const E &...) { return *this; }
    template <class G, class... E> class_ &def_property_readonly(const char *, G &&, const E &...) { return *this; }
    template <class G, class S, class... E> class_ &def_property(const char *, G &&, S &&, const E &...) { return *this; }
    template <class M> class_ &def_readonly(const char *, M &&) { return *this; }
    template <class M> class_ &def_readwrite(const char *, M &&) { return *this; }
};
struct str : object { str(const std::string &) {} };
}
#define PYBIND11_MODULE(name, var) void vg_module_##name(pybind11::module_ &var)
