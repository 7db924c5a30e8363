// Native stand-in for embind: records every exported function, class and enum with dynamically typed
// adapters, so that a harness can call the exports by name the way JavaScript does.
#pragma once
#include <any>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace emscripten {
struct Value { // a JavaScript-side value
    enum Kind { UNDEF, NUM, STR, VEC, OBJ } kind = UNDEF;
    double num = 0;
    std::string str;
    std::vector<uint8_t> vec;
    std::shared_ptr<void> obj;
    Value() {}
    Value(double d) : kind(NUM), num(d) {}
    Value(int d) : kind(NUM), num(d) {}
    Value(unsigned d) : kind(NUM), num(d) {}
    Value(bool d) : kind(NUM), num(d) {}
    Value(const std::string &s) : kind(STR), str(s) {}
    Value(const char *s) : kind(STR), str(s) {}
    Value(const std::vector<uint8_t> &v) : kind(VEC), vec(v) {}
};
struct BindingError : std::logic_error { using std::logic_error::logic_error; };

template<class T, class = void> struct Conv { // bound classes, by shared object
    static Value to(T &&v) { Value r; r.kind = Value::OBJ; r.obj = std::shared_ptr<void>(new T(std::move(v)), [](void *p) { delete static_cast<T *>(p); }); return r; }
    static Value to(const T &v) { Value r; r.kind = Value::OBJ; r.obj = std::shared_ptr<void>(new T(v), [](void *p) { delete static_cast<T *>(p); }); return r; }
    static T &from(const Value &v) { if (v.kind != Value::OBJ) throw BindingError("object expected"); return *static_cast<T *>(v.obj.get()); }
};
template<class T> struct Conv<T, std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value>> {
    static Value to(T v) { return Value((double) v); }
    static T from(const Value &v) { if (v.kind != Value::NUM) throw BindingError("number expected"); return static_cast<T>((long long) v.num); }
};
template<> struct Conv<std::string> {
    static Value to(const std::string &s) { return Value(s); }
    static std::string from(const Value &v) { if (v.kind != Value::STR) throw BindingError("string expected"); return v.str; }
};
template<> struct Conv<std::vector<uint8_t>> {
    static Value to(const std::vector<uint8_t> &s) { return Value(s); }
    static std::vector<uint8_t> from(const Value &v) { if (v.kind != Value::VEC) throw BindingError("Uint8Vector expected"); return v.vec; }
};
typedef std::vector<Value> Args;
typedef std::function<Value(const Args &)> Fn;
typedef std::function<Value(const Value &, const Args &)> Method;
struct ClassRec { std::map<std::string, Fn> statics; std::map<std::string, Method> methods; std::vector<Fn> ctors; };
struct Module { std::map<std::string, Fn> functions; std::map<std::string, ClassRec> classes; std::map<std::string, std::map<std::string, int>> enums; };
std::map<std::string, Module> &modules();  // defined by the harness
Module &currentModule();
struct ModuleScope { ModuleScope(const char *file, void (*f)()); };

template<class A> using D = std::remove_cv_t<std::remove_reference_t<A>>;
template<class R, class F, class... A, size_t... I>
Value callImpl(F f, const Args &a, std::index_sequence<I...>) {
    if (a.size() != sizeof...(A)) throw BindingError("wrong number of arguments");
    if constexpr (std::is_void<R>::value) { f(Conv<D<A>>::from(a[I])...); return Value(); }
    else return Conv<D<R>>::to(f(Conv<D<A>>::from(a[I])...));
}
template<class R, class... A> Fn adapt(R (*f)(A...)) {
    return [f](const Args &a) { return callImpl<R, R (*)(A...), A...>(f, a, std::index_sequence_for<A...>{}); };
}
template<class T, class R, class C, class... A> Method adaptM(R (C::*f)(A...)) {
    return [f](const Value &self, const Args &a) {
        T &o = Conv<T>::from(self);
        auto g = [&](auto &&...x) -> R { return (o.*f)(std::forward<decltype(x)>(x)...); };
        return callImpl<R, decltype(g), A...>(g, a, std::index_sequence_for<A...>{});
    };
}
template<class T, class R, class C, class... A> Method adaptM(R (C::*f)(A...) const) {
    return [f](const Value &self, const Args &a) {
        T &o = Conv<T>::from(self);
        auto g = [&](auto &&...x) -> R { return (o.*f)(std::forward<decltype(x)>(x)...); };
        return callImpl<R, decltype(g), A...>(g, a, std::index_sequence_for<A...>{});
    };
}
template<class R, class... A> void function(const char *name, R (*f)(A...)) { currentModule().functions[name] = adapt(f); }
template<class R, class... A, class P> void function(const char *name, R (*f)(A...), P) { currentModule().functions[name] = adapt(f); }
template<class T> void register_vector(const char *) {}
template<class K, class V> void register_map(const char *) {}
template<class T> struct enum_ {
    std::string n;
    explicit enum_(const char *name) : n(name) {}
    enum_ &value(const char *name, T v) { currentModule().enums[n][name] = (int) v; return *this; }
};
template<class T> struct class_ {
    std::string n;
    explicit class_(const char *name) : n(name) { currentModule().classes[n]; }
    ClassRec &rec() { return currentModule().classes[n]; }
    template<class R, class... A> class_ &class_function(const char *name, R (*f)(A...)) { rec().statics[name] = adapt(f); return *this; }
    template<class F> class_ &function(const char *name, F f) { rec().methods[name] = adaptM<T>(f); return *this; }
    template<class... A> class_ &constructor() {
        rec().ctors.push_back([](const Args &a) { auto g = [](auto &&...x) -> T { return T(std::forward<decltype(x)>(x)...); }; return callImpl<T, decltype(g), A...>(g, a, std::index_sequence_for<A...>{}); });
        return *this;
    }
};
} // namespace emscripten
#define EMS_CAT2(a, b) a##b
#define EMS_CAT(a, b) EMS_CAT2(a, b)
#define EMSCRIPTEN_BINDINGS(name) \
    static void EMS_CAT(ems_init_, name)(); \
    static ::emscripten::ModuleScope EMS_CAT(ems_scope_, name)(__FILE__, EMS_CAT(ems_init_, name)); \
    static void EMS_CAT(ems_init_, name)()
