// Declarations-only stand-in for pybind11 used by the static front end.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace pybind11 {
template <class T> void print(const T &x);
struct object { };
struct arg_v { };
struct arg { arg(const char *n); template <class T> arg_v operator=(T &&v) const; arg &noconvert(bool = true); };
struct doc_t { doc_t &operator=(const char *); };
template <class... A> struct init_t { };
template <class... A> init_t<A...> init();
struct module {
  doc_t &doc();
  template <class F, class... X> module &def(const char *name, F &&f, const X &...x) { return *this; }
  module def_submodule(const char *n, const char *d = "");
  template <class T> void attr_set(const char *, T);
};
using module_ = module;
template <class T, class... O> struct class_ {
  template <class... X> class_(module &m, const char *n, const X &...);
  template <class... A, class... X> class_ &def(init_t<A...>, const X &...);
  template <class F, class... X> class_ &def(const char *n, F &&f, const X &...) { return *this; }
  template <class C, class D, class... X> class_ &def_readwrite(const char *n, D C::*pm, const X &...);
  template <class C, class D, class... X> class_ &def_readonly(const char *n, D C::*pm, const X &...);
  template <class... X> class_ &def_property(const char *n, const X &...);
};
template <class V> class_<V> bind_vector(module &m, const char *n);
enum class return_value_policy { automatic, copy, move, reference, reference_internal, take_ownership };
template <class... A> struct call_guard { };
struct gil_scoped_release { };
struct gil_scoped_acquire { };
}
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_MODULE(name, var) void pybind_module_##name(pybind11::module &var)
