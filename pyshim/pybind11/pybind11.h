// Stand-in for pybind11 (not installed): the part of its interface that /repo/pykep uses, over the CPython and numpy C
// API, with pybind11's rules for overload resolution (a pass without implicit conversions, then one with), argument
// conversion, defaults, ownership, exceptions, enums and pickling. Lets the real pykep/core.cpp be compiled and imported.
#ifndef PYSHIM_PYBIND11_H
#define PYSHIM_PYBIND11_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>

#include <array>
#include <chrono>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>

namespace pybind11
{
using ssize_t = Py_ssize_t;

class object;
template <class T>
T cast(const object &);
template <class T>
struct caster;

class error_already_set : public std::exception
{
    mutable PyObject *t = nullptr, *v = nullptr, *b = nullptr;
    std::string m_what = "Python error";

public:
    error_already_set()
    {
        PyErr_Fetch(&t, &v, &b);
        if (v) {
            PyObject *s = PyObject_Str(v);
            if (s) {
                const char *c = PyUnicode_AsUTF8(s);
                if (c) m_what = c;
                Py_DECREF(s);
            }
            PyErr_Clear();
        }
    }
    error_already_set(const error_already_set &o) : t(o.t), v(o.v), b(o.b), m_what(o.m_what)
    {
        Py_XINCREF(t);
        Py_XINCREF(v);
        Py_XINCREF(b);
    }
    ~error_already_set() override
    {
        Py_XDECREF(t);
        Py_XDECREF(v);
        Py_XDECREF(b);
    }
    void restore() const
    {
        PyErr_Restore(t, v, b);
        t = v = b = nullptr;
    }
    [[nodiscard]] const char *what() const noexcept override { return m_what.c_str(); }
};
struct cast_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct reference_cast_error : cast_error {
    reference_cast_error() : cast_error("reference cast") {}
};

class accessor;
class handle
{
protected:
    PyObject *m_ptr = nullptr;

public:
    handle() = default;
    handle(PyObject *p) : m_ptr(p) {}
    [[nodiscard]] PyObject *ptr() const { return m_ptr; }
    [[nodiscard]] bool is_none() const { return m_ptr == Py_None; }
    explicit operator bool() const { return m_ptr != nullptr; }
    accessor attr(const char *) const;
    template <class... A>
    object operator()(A &&...) const;
    template <class T>
    T cast() const;
    [[nodiscard]] bool equal(const handle &o) const
    {
        int r = PyObject_RichCompareBool(m_ptr, o.m_ptr, Py_EQ);
        if (r < 0) throw error_already_set();
        return r == 1;
    }
};
struct stolen {
};
class object : public handle
{
public:
    object() = default;
    object(PyObject *p, stolen) : handle(p) {}
    object(const object &o) : handle(o.m_ptr) { Py_XINCREF(m_ptr); }
    object(object &&o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
    object &operator=(const object &o)
    {
        Py_XINCREF(o.m_ptr);
        PyObject *x = m_ptr;
        m_ptr = o.m_ptr;
        Py_XDECREF(x);
        return *this;
    }
    object &operator=(object &&o) noexcept
    {
        std::swap(m_ptr, o.m_ptr);
        return *this;
    }
    ~object() { Py_XDECREF(m_ptr); }
    PyObject *release()
    {
        PyObject *x = m_ptr;
        m_ptr = nullptr;
        return x;
    }
    static object borrow(PyObject *p)
    {
        Py_XINCREF(p);
        return object(p, stolen{});
    }
    static object steal(PyObject *p)
    {
        if (!p) throw error_already_set();
        return object(p, stolen{});
    }
};

template <class T>
PyObject *to_py(T &&, int policy = 0, PyObject *parent = nullptr);

class accessor
{
    object m_obj;
    std::string m_name;

public:
    accessor(object o, const char *n) : m_obj(std::move(o)), m_name(n) {}
    [[nodiscard]] object get() const { return object::steal(PyObject_GetAttrString(m_obj.ptr(), m_name.c_str())); }
    operator object() const { return get(); }
    template <class T>
    void operator=(T &&v) const
    {
        object o = object::steal(to_py(std::forward<T>(v)));
        if (PyObject_SetAttrString(m_obj.ptr(), m_name.c_str(), o.ptr()) != 0) throw error_already_set();
    }
    template <class... A>
    object operator()(A &&...a) const
    {
        return get()(std::forward<A>(a)...);
    }
    [[nodiscard]] accessor attr(const char *n) const { return accessor(get(), n); }
    template <class T>
    T cast() const
    {
        return pybind11::cast<T>(get());
    }
};
inline accessor handle::attr(const char *n) const { return accessor(object::borrow(m_ptr), n); }

struct none : object {
    none() : object(object::borrow(Py_None)) {}
};
struct str : object {
    str(const object &o) : object(object::steal(PyObject_Str(o.ptr()))) {}
    str(const char *s) : object(object::steal(PyUnicode_FromString(s))) {}
    str(const std::string &s) : object(object::steal(PyUnicode_FromStringAndSize(s.data(), static_cast<ssize_t>(s.size())))) {}
};
struct bytes : object {
    bytes(const std::string &s) : object(object::steal(PyBytes_FromStringAndSize(s.data(), static_cast<ssize_t>(s.size())))) {}
};
struct float_ : object {
    float_(double d) : object(object::steal(PyFloat_FromDouble(d))) {}
};
struct int_ : object {
    int_(long d) : object(object::steal(PyLong_FromLong(d))) {}
};
struct dict : object {
    dict() : object(object::steal(PyDict_New())) {}
    explicit dict(object o) : object(std::move(o)) {}
};
struct tuple : object {
    tuple() : object(object::steal(PyTuple_New(0))) {}
    explicit tuple(object o) : object(std::move(o)) {}
    object operator[](std::size_t i) const
    {
        PyObject *p = PyTuple_GetItem(m_ptr, static_cast<ssize_t>(i));
        if (!p) throw error_already_set();
        return object::borrow(p);
    }
};
struct capsule : object {
    capsule(const void *p, void (*d)(void *))
        : object(object::steal(PyCapsule_New(const_cast<void *>(p), nullptr, [](PyObject *o) {
              auto f = reinterpret_cast<void (*)(void *)>(PyCapsule_GetContext(o));
              f(PyCapsule_GetPointer(o, nullptr));
          })))
    {
        if (PyCapsule_SetContext(m_ptr, reinterpret_cast<void *>(d)) != 0) throw error_already_set();
    }
};
class module_ : public object
{
public:
    module_() = default;
    explicit module_(object o) : object(std::move(o)) {}
    static module_ import(const char *n) { return module_(object::steal(PyImport_ImportModule(n))); }
    struct doc_setter {
        PyObject *m;
        void operator=(const std::string &s) const { PyObject_SetAttrString(m, "__doc__", str(s).ptr()); }
    };
    [[nodiscard]] doc_setter doc() const { return {m_ptr}; }
    template <class F, class... X>
    module_ &def(const char *name, F &&f, const X &...x);
};
using module = module_;

inline bool hasattr(const handle &o, const char *n) { return PyObject_HasAttrString(o.ptr(), n) == 1; }
inline bool isinstance(const handle &o, const handle &t)
{
    int r = PyObject_IsInstance(o.ptr(), t.ptr());
    if (r < 0) throw error_already_set();
    return r != 0;
}
inline std::size_t len(const handle &o)
{
    ssize_t r = PyObject_Length(o.ptr());
    if (r < 0) throw error_already_set();
    return static_cast<std::size_t>(r);
}

enum class return_value_policy { automatic = 0, reference_internal = 1, copy = 2, move = 3, take_ownership = 4, reference = 5 };
struct dynamic_attr {
};
struct options {
    options &disable_function_signatures() { return *this; }
};
struct arg_v {
    std::string name;
    object def;
};
struct arg {
    std::string name;
    explicit arg(const char *n) : name(n) {}
    template <class T>
    arg_v operator=(T &&v) const
    {
        return {name, object::steal(to_py(std::forward<T>(v)))};
    }
};

namespace detail
{
// ------------------------------------------------------------------ numpy
inline void np_init()
{
    if (PyArray_API == nullptr && _import_array() < 0) throw error_already_set();
}
// ------------------------------------------------------------------ registered classes
struct instance {
    PyObject_HEAD
    void *value;
    void (*del)(void *);
    PyObject *keep;
    PyObject *dict;
};
struct type_rec {
    PyTypeObject *type = nullptr;
};
__attribute__((visibility("default"))) inline std::map<std::type_index, type_rec> &registry()
{
    static std::map<std::type_index, type_rec> r;
    return r;
}
inline PyTypeObject *type_of(const std::type_info &t)
{
    auto it = registry().find(std::type_index(t));
    return it == registry().end() ? nullptr : it->second.type;
}
inline void inst_dealloc(PyObject *o)
{
    auto *i = reinterpret_cast<instance *>(o);
    if (i->value && i->del) i->del(i->value);
    Py_XDECREF(i->keep);
    Py_XDECREF(i->dict);
    PyTypeObject *t = Py_TYPE(o);
    t->tp_free(o);
    Py_DECREF(t);
}
inline PyObject *inst_new(PyTypeObject *t, PyObject *, PyObject *)
{
    return t->tp_alloc(t, 0);
}
template <class T>
PyObject *new_instance(T *p, bool own, PyObject *parent)
{
    PyTypeObject *t = type_of(typeid(T));
    if (!t) {
        if (own) delete p;
        PyErr_SetString(PyExc_TypeError, "Unregistered type");
        throw error_already_set();
    }
    auto *i = reinterpret_cast<instance *>(t->tp_alloc(t, 0));
    i->value = const_cast<std::remove_const_t<T> *>(p);
    i->del = own ? +[](void *q) { delete static_cast<T *>(q); } : nullptr;
    if (parent) {
        Py_INCREF(parent);
        i->keep = parent;
    }
    return reinterpret_cast<PyObject *>(i);
}
// ------------------------------------------------------------------ overloads
struct next_overload {
};
struct param {
    std::string name;
    object def; // null: required
};
struct rec {
    std::vector<param> params;
    std::function<PyObject *(std::vector<PyObject *> &, bool)> impl; // throws next_overload
};
struct overloads {
    std::string name;
    std::vector<rec> v;
    PyMethodDef md{};
    std::string doc;
};
inline void translate()
{
    try {
        throw;
    } catch (const error_already_set &e) {
        e.restore();
    } catch (const std::bad_alloc &e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::domain_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::invalid_argument &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::length_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range &e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::range_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::overflow_error &e) {
        PyErr_SetString(PyExc_OverflowError, e.what());
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception");
    }
}
inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kwargs)
{
    auto *o = static_cast<overloads *>(PyCapsule_GetPointer(self, nullptr));
    const auto na = static_cast<std::size_t>(PyTuple_GET_SIZE(args));
    const bool many = o->v.size() > 1;
    for (int pass = many ? 0 : 1; pass < 2; ++pass)
        for (auto &r : o->v) {
            if (na > r.params.size()) continue;
            std::vector<PyObject *> a;
            for (std::size_t i = 0; i < na; ++i) a.push_back(PyTuple_GET_ITEM(args, static_cast<ssize_t>(i)));
            std::size_t used = 0;
            bool ok = true;
            // a keyword that names an argument already given is an error
            if (kwargs)
                for (std::size_t i = 0; i < na; ++i)
                    if (!r.params[i].name.empty() && PyDict_GetItemString(kwargs, r.params[i].name.c_str())) ok = false;
            for (std::size_t i = na; ok && i < r.params.size(); ++i) {
                PyObject *v = kwargs && !r.params[i].name.empty() ? PyDict_GetItemString(kwargs, r.params[i].name.c_str()) : nullptr;
                if (v)
                    ++used;
                else
                    v = r.params[i].def.ptr();
                if (!v) ok = false;
                a.push_back(v);
            }
            if (!ok || (kwargs && used != static_cast<std::size_t>(PyDict_Size(kwargs)))) continue;
            try {
                return r.impl(a, pass == 1);
            } catch (const next_overload &) {
                PyErr_Clear();
            } catch (const reference_cast_error &) {
                PyErr_Clear();
            } catch (...) {
                translate();
                return nullptr;
            }
        }
    PyErr_SetString(PyExc_TypeError, (o->name + "(): incompatible function arguments").c_str());
    return nullptr;
}
__attribute__((visibility("default"))) inline std::map<std::pair<PyObject *, std::string>, overloads *> &chains()
{
    static std::map<std::pair<PyObject *, std::string>, overloads *> m;
    return m;
}
inline void add_function(PyObject *scope, const char *name, rec r, bool method, const std::string &doc)
{
    auto &o = chains()[{scope, name}];
    if (!o) {
        o = new overloads;
        o->name = name;
        o->doc = doc;
        o->md = {o->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&dispatch)),
                 METH_VARARGS | METH_KEYWORDS, o->doc.c_str()};
        object cap = object::steal(PyCapsule_New(o, nullptr, nullptr));
        object f = object::steal(PyCFunction_New(&o->md, cap.ptr()));
        if (method) f = object::steal(PyInstanceMethod_New(f.ptr()));
        if (PyObject_SetAttrString(scope, name, f.ptr()) != 0) throw error_already_set();
    }
    o->v.push_back(std::move(r));
}
struct extras {
    std::vector<param> args;
    std::string doc;
    int policy = 0;
    bool dynamic = false;
    void add(const char *d) { doc = d; }
    void add(const std::string &d) { doc = d; }
    void add(const arg &a) { args.push_back({a.name, object()}); }
    void add(const arg_v &a) { args.push_back({a.name, a.def}); }
    void add(return_value_policy p) { policy = static_cast<int>(p); }
    void add(dynamic_attr) { dynamic = true; }
    template <class... X>
    explicit extras(const X &...x)
    {
        (add(x), ...);
    }
};
// ------------------------------------------------------------------ signatures
template <class F>
struct sig : sig<decltype(&std::remove_reference_t<F>::operator())> {
};
template <class R, class... A>
struct sig<R (*)(A...)> {
    using ret = R;
    using args = std::tuple<A...>;
};
template <class R, class... A>
struct sig<R (&)(A...)> : sig<R (*)(A...)> {
};
template <class R, class... A>
struct sig<R(A...)> : sig<R (*)(A...)> {
};
template <class R, class C, class... A>
struct sig<R (C::*)(A...)> : sig<R (*)(A...)> {
};
template <class R, class C, class... A>
struct sig<R (C::*)(A...) const> : sig<R (*)(A...)> {
};
template <class A>
decltype(auto) pass(caster<std::remove_cv_t<std::remove_reference_t<A>>> &c)
{
    if constexpr (std::is_lvalue_reference_v<A>)
        return (c.get());
    else
        return std::remove_cv_t<std::remove_reference_t<A>>(c.get());
}
template <class F, class R, class... A, std::size_t... I>
PyObject *call_with(F &f, std::tuple<A...> *, R *, std::vector<PyObject *> &a, bool conv, int policy, std::index_sequence<I...>)
{
    std::tuple<caster<std::remove_cv_t<std::remove_reference_t<A>>>...> cs;
    bool ok = (std::get<I>(cs).load(a[I], conv) && ...);
    if (!ok) throw next_overload{};
    if constexpr (std::is_void_v<typename sig<F>::ret>) {
        f(pass<A>(std::get<I>(cs))...);
        Py_RETURN_NONE;
    } else {
        return to_py(f(pass<A>(std::get<I>(cs))...), policy, a.empty() ? nullptr : a[0]);
    }
}
template <class F>
rec make_rec(F f, const extras &x, bool method)
{
    using S = sig<F>;
    constexpr std::size_t n = std::tuple_size_v<typename S::args>;
    rec r;
    r.params.resize(n);
    std::size_t off = method ? 1 : 0;
    if (!x.args.empty() && x.args.size() + off != n) throw std::runtime_error("py::arg annotations do not match the function");
    for (std::size_t i = 0; i < x.args.size(); ++i) r.params[off + i] = x.args[i];
    int pol = x.policy;
    r.impl = [f, pol](std::vector<PyObject *> &a, bool conv) mutable -> PyObject * {
        return call_with(f, static_cast<typename S::args *>(nullptr), static_cast<std::remove_reference_t<typename S::ret> *>(nullptr), a,
                         conv, pol, std::make_index_sequence<n>());
    };
    return r;
}
template <class R, class C, class... A>
auto wrap(R (C::*f)(A...))
{
    return [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
}
template <class R, class C, class... A>
auto wrap(R (C::*f)(A...) const)
{
    return [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
}
template <class R, class C, class... A>
auto wrap(R (C::*f)(A...) const noexcept)
{
    return [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
}
template <class R, class... A>
auto wrap(R (*f)(A...))
{
    return f;
}
template <class R, class... A>
auto wrap(R (*f)(A...) noexcept)
{
    return [f](A... a) -> R { return f(std::forward<A>(a)...); };
}
template <class F>
    requires std::is_class_v<std::remove_reference_t<F>>
auto wrap(F &&f)
{
    return std::forward<F>(f);
}
template <class R, class... A>
struct vectorized {
    R (*f)(A...);
};
} // namespace detail

// -------------------------------------------------------------------- conversions
template <class T>
struct caster { // registered classes
    T *p = nullptr;
    bool load(PyObject *o, bool)
    {
        PyTypeObject *t = detail::type_of(typeid(T));
        if (!t || !PyObject_TypeCheck(o, t)) return false;
        p = static_cast<T *>(reinterpret_cast<detail::instance *>(o)->value);
        return true;
    }
    T &get()
    {
        if (!p) throw reference_cast_error();
        return *p;
    }
};
template <>
struct caster<double> {
    double v = 0;
    bool load(PyObject *o, bool conv)
    {
        if (!o || (!conv && !PyFloat_Check(o))) return false;
        v = PyFloat_AsDouble(o);
        if (v == -1.0 && PyErr_Occurred()) {
            PyErr_Clear();
            if (conv && PyNumber_Check(o)) {
                object f(PyNumber_Float(o), stolen{});
                PyErr_Clear();
                return f && load(f.ptr(), false);
            }
            return false;
        }
        return true;
    }
    double &get() { return v; }
};
template <class T>
    requires(std::is_integral_v<T> && !std::is_same_v<T, bool>)
struct caster<T> {
    T v = 0;
    bool load(PyObject *o, bool conv)
    {
        if (!o || PyFloat_Check(o)) return false;
        if (!conv && !PyLong_Check(o) && !PyIndex_Check(o)) return false;
        object n;
        if (!PyLong_Check(o)) {
            n = object(PyNumber_Index(o), stolen{});
            if (!n) {
                PyErr_Clear();
                if (!conv || !PyNumber_Check(o)) return false;
                n = object(PyNumber_Long(o), stolen{});
                PyErr_Clear();
                return n && load(n.ptr(), false);
            }
            o = n.ptr();
        }
        int over = 0;
        long long x = PyLong_AsLongLongAndOverflow(o, &over);
        if (over || (x == -1 && PyErr_Occurred())) {
            PyErr_Clear();
            return false;
        }
        if constexpr (std::is_unsigned_v<T>) {
            if (x < 0) return false;
        }
        v = static_cast<T>(x);
        return static_cast<long long>(v) == x;
    }
    T &get() { return v; }
};
template <>
struct caster<bool> {
    bool v = false;
    bool load(PyObject *o, bool conv)
    {
        if (o == Py_True || o == Py_False) {
            v = o == Py_True;
            return true;
        }
        const char *tn = Py_TYPE(o)->tp_name;
        if (conv || std::strcmp(tn, "numpy.bool") == 0 || std::strcmp(tn, "numpy.bool_") == 0) {
            if (o == Py_None) {
                v = false;
                return true;
            }
            PyNumberMethods *nm = Py_TYPE(o)->tp_as_number;
            if (!nm || !nm->nb_bool) return false;
            int r = nm->nb_bool(o);
            if (r == 0 || r == 1) {
                v = r == 1;
                return true;
            }
            PyErr_Clear();
        }
        return false;
    }
    bool &get() { return v; }
};
template <>
struct caster<std::string> {
    std::string v;
    bool load(PyObject *o, bool)
    {
        if (PyUnicode_Check(o)) {
            ssize_t n = 0;
            const char *c = PyUnicode_AsUTF8AndSize(o, &n);
            if (!c) {
                PyErr_Clear();
                return false;
            }
            v.assign(c, static_cast<std::size_t>(n));
            return true;
        }
        if (PyBytes_Check(o)) {
            v.assign(PyBytes_AS_STRING(o), static_cast<std::size_t>(PyBytes_GET_SIZE(o)));
            return true;
        }
        return false;
    }
    std::string &get() { return v; }
};
template <class C, class T>
bool load_seq(PyObject *o, bool conv, C &&push, ssize_t want)
{
    if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) return false;
    ssize_t n = PySequence_Size(o);
    if (n < 0) {
        PyErr_Clear();
        return false;
    }
    if (want >= 0 && n != want) return false;
    for (ssize_t i = 0; i < n; ++i) {
        object x(PySequence_GetItem(o, i), stolen{});
        if (!x) {
            PyErr_Clear();
            return false;
        }
        caster<T> c;
        if (!c.load(x.ptr(), conv)) return false;
        push(static_cast<std::size_t>(i), c.get());
    }
    return true;
}
template <class T, std::size_t N>
struct caster<std::array<T, N>> {
    std::array<T, N> v{};
    bool load(PyObject *o, bool conv)
    {
        return load_seq<std::function<void(std::size_t, T &)>, T>(o, conv, [this](std::size_t i, T &x) { v[i] = x; }, static_cast<ssize_t>(N));
    }
    std::array<T, N> &get() { return v; }
};
template <class T>
struct caster<std::vector<T>> {
    std::vector<T> v;
    bool load(PyObject *o, bool conv)
    {
        v.clear();
        return load_seq<std::function<void(std::size_t, T &)>, T>(o, conv, [this](std::size_t, T &x) { v.push_back(x); }, -1);
    }
    std::vector<T> &get() { return v; }
};
template <class... T>
struct caster<std::variant<T...>> {
    std::variant<T...> v;
    template <class U>
    bool one(PyObject *o, bool conv)
    {
        caster<U> c;
        if (!c.load(o, conv)) return false;
        v = c.get();
        return true;
    }
    bool load(PyObject *o, bool conv)
    {
        if (conv && (one<T>(o, false) || ...)) return true;
        return (one<T>(o, conv) || ...);
    }
    std::variant<T...> &get() { return v; }
};
template <class Rep, class Period>
struct caster<std::chrono::duration<Rep, Period>> {
    using D = std::chrono::duration<Rep, Period>;
    D v{};
    bool load(PyObject *o, bool)
    {
        if (!o) return false;
        object td = module_::import("datetime").attr("timedelta");
        if (isinstance(handle(o), td)) {
            handle h(o);
            using namespace std::chrono;
            using days = duration<int, std::ratio<86400>>;
            v = duration_cast<D>(days(h.attr("days").cast<int>()) + seconds(h.attr("seconds").cast<int>())
                                 + microseconds(h.attr("microseconds").cast<int>()));
            return true;
        }
        if (PyFloat_Check(o)) {
            v = std::chrono::duration_cast<D>(std::chrono::duration<double>(PyFloat_AsDouble(o)));
            return true;
        }
        return false;
    }
    D &get() { return v; }
};
template <>
struct caster<object> {
    object v;
    bool load(PyObject *o, bool)
    {
        v = object::borrow(o);
        return static_cast<bool>(v);
    }
    object &get() { return v; }
};
template <>
struct caster<dict> {
    dict v;
    bool load(PyObject *o, bool)
    {
        if (!o || !PyDict_Check(o)) return false;
        v = dict(object::borrow(o));
        return true;
    }
    dict &get() { return v; }
};
template <>
struct caster<tuple> {
    tuple v;
    bool load(PyObject *o, bool)
    {
        if (!o || !PyTuple_Check(o)) return false;
        v = tuple(object::borrow(o));
        return true;
    }
    tuple &get() { return v; }
};

// -------------------------------------------------------------------- arrays
class array : public object
{
public:
    struct ShapeContainer : std::vector<ssize_t> {
        using std::vector<ssize_t>::vector;
    };
    array() = default;
};
template <class T>
class array_t : public array
{
    static_assert(std::is_same_v<T, double>);

public:
    array_t() = default;
    explicit array_t(object o) { static_cast<object &>(*this) = std::move(o); }
    // data owned by base: no copy
    array_t(const ShapeContainer &shape, const T *data, object base)
    {
        detail::np_init();
        std::vector<npy_intp> d(shape.begin(), shape.end());
        object a = object::steal(PyArray_SimpleNewFromData(static_cast<int>(d.size()), d.data(), NPY_DOUBLE, const_cast<T *>(data)));
        if (PyArray_SetBaseObject(reinterpret_cast<PyArrayObject *>(a.ptr()), base.release()) != 0) throw error_already_set();
        static_cast<object &>(*this) = std::move(a);
    }
};
template <>
struct caster<array_t<double>> {
    array_t<double> v;
    bool load(PyObject *o, bool)
    {
        detail::np_init();
        PyObject *a = PyArray_FROM_OTF(o, NPY_DOUBLE, NPY_ARRAY_FORCECAST | NPY_ARRAY_ENSUREARRAY);
        if (!a) {
            PyErr_Clear();
            return false;
        }
        v = array_t<double>(object(a, stolen{}));
        return true;
    }
    array_t<double> &get() { return v; }
};

template <class T>
T cast(const object &o)
{
    caster<std::remove_cv_t<T>> c;
    if (!c.load(o.ptr(), true)) {
        std::string tn = Py_TYPE(o.ptr())->tp_name;
        throw cast_error("Unable to cast Python instance of type " + tn + " to C++ type '" + typeid(T).name() + "'");
    }
    return c.get();
}
template <class T>
T handle::cast() const
{
    return pybind11::cast<T>(object::borrow(m_ptr));
}

// -------------------------------------------------------------------- to Python
namespace detail
{
template <class T>
struct is_vec : std::false_type {
};
template <class T>
struct is_vec<std::vector<T>> : std::true_type {
};
template <class T, std::size_t N>
struct is_vec<std::array<T, N>> : std::true_type {
};
template <class T>
struct is_tup : std::false_type {
};
template <class... T>
struct is_tup<std::tuple<T...>> : std::true_type {
};
template <class A, class B>
struct is_tup<std::pair<A, B>> : std::true_type {
};
template <class T>
struct is_opt : std::false_type {
};
template <class T>
struct is_opt<std::optional<T>> : std::true_type {
};
} // namespace detail
template <class T>
PyObject *to_py(T &&v, int policy, PyObject *parent)
{
    using U = std::remove_cv_t<std::remove_reference_t<T>>;
    if constexpr (std::is_base_of_v<handle, U>) {
        Py_XINCREF(v.ptr());
        return v.ptr();
    } else if constexpr (std::is_same_v<U, accessor>) {
        return v.get().release();
    } else if constexpr (std::is_same_v<U, bool>) {
        return PyBool_FromLong(v);
    } else if constexpr (std::is_floating_point_v<U>) {
        return PyFloat_FromDouble(static_cast<double>(v));
    } else if constexpr (std::is_integral_v<U>) {
        if constexpr (std::is_signed_v<U>)
            return PyLong_FromLongLong(v);
        else
            return PyLong_FromUnsignedLongLong(v);
    } else if constexpr (std::is_same_v<U, std::string>) {
        return PyUnicode_FromStringAndSize(v.data(), static_cast<ssize_t>(v.size()));
    } else if constexpr (std::is_convertible_v<T, const char *>) {
        return PyUnicode_FromString(v);
    } else if constexpr (detail::is_vec<U>::value) {
        object l = object::steal(PyList_New(static_cast<ssize_t>(v.size())));
        ssize_t i = 0;
        for (auto &&x : v) {
            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::_Bit_reference>)
                PyList_SET_ITEM(l.ptr(), i++, PyBool_FromLong(static_cast<bool>(x)));
            else
                PyList_SET_ITEM(l.ptr(), i++, to_py(x));
        }
        return l.release();
    } else if constexpr (detail::is_tup<U>::value) {
        object t = object::steal(PyTuple_New(static_cast<ssize_t>(std::tuple_size_v<U>)));
        std::apply(
            [&](auto &&...x) {
                ssize_t i = 0;
                (PyTuple_SET_ITEM(t.ptr(), i++, to_py(x)), ...);
            },
            v);
        return t.release();
    } else if constexpr (detail::is_opt<U>::value) {
        if (!v) Py_RETURN_NONE;
        return to_py(*v);
    } else if constexpr (std::is_pointer_v<U>) {
        if (!v) Py_RETURN_NONE;
        using P = std::remove_cv_t<std::remove_pointer_t<U>>;
        if (policy == static_cast<int>(return_value_policy::reference_internal)) return detail::new_instance<P>(const_cast<P *>(v), false, parent);
        if (policy == static_cast<int>(return_value_policy::reference)) return detail::new_instance<P>(const_cast<P *>(v), false, nullptr);
        if (policy == static_cast<int>(return_value_policy::copy)) return detail::new_instance<P>(new P(*v), true, nullptr);
        return detail::new_instance<P>(const_cast<P *>(v), true, nullptr);
    } else if constexpr (std::is_lvalue_reference_v<T>) {
        if (policy == static_cast<int>(return_value_policy::reference_internal)) return detail::new_instance<U>(const_cast<U *>(&v), false, parent);
        return detail::new_instance<U>(new U(v), true, nullptr);
    } else {
        return detail::new_instance<U>(new U(std::move(v)), true, nullptr);
    }
}
template <class... A>
object handle::operator()(A &&...a) const
{
    object t = object::steal(PyTuple_New(static_cast<ssize_t>(sizeof...(A))));
    ssize_t i = 0;
    (PyTuple_SET_ITEM(t.ptr(), i++, to_py(std::forward<A>(a))), ...);
    return object::steal(PyObject_CallObject(m_ptr, t.ptr()));
}
template <class... A>
tuple make_tuple(A &&...a)
{
    object t = object::steal(PyTuple_New(static_cast<ssize_t>(sizeof...(A))));
    ssize_t i = 0;
    (PyTuple_SET_ITEM(t.ptr(), i++, to_py(std::forward<A>(a))), ...);
    return tuple(t);
}

// -------------------------------------------------------------------- vectorize, overload_cast
template <class R, class... A>
detail::vectorized<R, A...> vectorize(R (*f)(A...))
{
    return {f};
}
template <class... A>
struct overload_cast_t {
    template <class R>
    auto operator()(R (*f)(A...)) const
    {
        return f;
    }
};
template <class... A>
inline constexpr overload_cast_t<A...> overload_cast{};

namespace detail
{
template <class R, class... A, std::size_t... I>
PyObject *run_vectorized(R (*f)(A...), std::vector<PyObject *> &a, std::index_sequence<I...>)
{
    np_init();
    constexpr int n = sizeof...(A);
    std::array<object, n> arr;
    bool scalar = true;
    for (int i = 0; i < n; ++i) {
        PyObject *x = PyArray_FROM_OTF(a[static_cast<std::size_t>(i)], NPY_DOUBLE, NPY_ARRAY_FORCECAST);
        if (!x) throw next_overload{};
        arr[static_cast<std::size_t>(i)] = object(x, stolen{});
        if (PyArray_NDIM(reinterpret_cast<PyArrayObject *>(x)) > 0) scalar = false;
    }
    object it = object::steal(PyArray_MultiIterNew(n, arr[I].ptr()...));
    auto *mi = reinterpret_cast<PyArrayMultiIterObject *>(it.ptr());
    object out = object::steal(PyArray_SimpleNew(mi->nd, mi->dimensions, NPY_DOUBLE));
    auto *o = static_cast<double *>(PyArray_DATA(reinterpret_cast<PyArrayObject *>(out.ptr())));
    while (PyArray_MultiIter_NOTDONE(mi)) {
        *o++ = f(*static_cast<double *>(PyArray_MultiIter_DATA(mi, I))...);
        PyArray_MultiIter_NEXT(mi);
    }
    if (scalar) return PyFloat_FromDouble(*static_cast<double *>(PyArray_DATA(reinterpret_cast<PyArrayObject *>(out.ptr()))));
    return out.release();
}
template <class R, class... A>
rec make_vec_rec(vectorized<R, A...> v, const extras &x)
{
    rec r;
    r.params.resize(sizeof...(A));
    for (std::size_t i = 0; i < x.args.size(); ++i) r.params[i] = x.args[i];
    auto *f = v.f;
    r.impl = [f](std::vector<PyObject *> &a, bool) { return run_vectorized(f, a, std::make_index_sequence<sizeof...(A)>()); };
    return r;
}
template <class T>
struct is_vectorized : std::false_type {
};
template <class R, class... A>
struct is_vectorized<vectorized<R, A...>> : std::true_type {
};
} // namespace detail

template <class F, class... X>
module_ &module_::def(const char *name, F &&f, const X &...x)
{
    detail::extras e(x...);
    if constexpr (detail::is_vectorized<std::decay_t<F>>::value)
        detail::add_function(m_ptr, name, detail::make_vec_rec(f, e), false, e.doc);
    else
        detail::add_function(m_ptr, name, detail::make_rec(detail::wrap(f), e, false), false, e.doc);
    return *this;
}

// -------------------------------------------------------------------- classes
template <class... A>
struct init_t {
};
template <class F>
struct factory_t {
    F f;
};
template <class... A>
init_t<A...> init()
{
    return {};
}
template <class F>
factory_t<F> init(F f)
{
    return {std::move(f)};
}
template <class G, class S>
struct pickle_t {
    G g;
    S s;
};
template <class G, class S>
pickle_t<G, S> pickle(G g, S s)
{
    return {g, s};
}
namespace detail
{
template <class T>
void set_value(PyObject *self, T *p)
{
    auto *i = reinterpret_cast<instance *>(self);
    if (i->value && i->del) i->del(i->value);
    i->value = p;
    i->del = [](void *q) { delete static_cast<T *>(q); };
}
template <class T, class... A>
auto ctor(init_t<A...>)
{
    return [](object self, A... a) { set_value<T>(self.ptr(), new T(std::forward<A>(a)...)); };
}
template <class T, class F, class... A>
auto fctor(F f, std::tuple<A...> *)
{
    return [f](object self, A... a) mutable { set_value<T>(self.ptr(), new T(f(std::forward<A>(a)...))); };
}
} // namespace detail

template <class T>
class class_ : public object
{
public:
    template <class... X>
    class_(const handle &scope, const char *name, const X &...x)
    {
        detail::extras e(x...);
        std::string mod;
        std::string qual = name;
        if (PyModule_Check(scope.ptr()))
            mod = scope.attr("__name__").template cast<std::string>();
        else {
            mod = scope.attr("__module__").template cast<std::string>();
            qual = scope.attr("__qualname__").template cast<std::string>() + "." + name;
        }
        auto *full = new std::string(mod + "." + name);
        static PyMemberDef members[] = {{"__dictoffset__", T_PYSSIZET_, offsetof(detail::instance, dict), READONLY_, nullptr}, {nullptr, 0, 0, 0, nullptr}};
        std::vector<PyType_Slot> slots{{Py_tp_new, reinterpret_cast<void *>(&detail::inst_new)},
                                       {Py_tp_dealloc, reinterpret_cast<void *>(&detail::inst_dealloc)}};
        if (e.dynamic) slots.push_back({Py_tp_members, members});
        slots.push_back({0, nullptr});
        PyType_Spec spec{full->c_str(), sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots.data()};
        static_cast<object &>(*this) = object::steal(PyType_FromSpec(&spec));
        PyObject_SetAttrString(m_ptr, "__qualname__", str(qual).ptr());
        if (!e.doc.empty()) PyObject_SetAttrString(m_ptr, "__doc__", str(e.doc).ptr());
        detail::registry()[std::type_index(typeid(T))].type = reinterpret_cast<PyTypeObject *>(m_ptr);
        Py_INCREF(m_ptr);
        if (PyObject_SetAttrString(scope.ptr(), name, m_ptr) != 0) throw error_already_set();
    }
    template <class F, class... X>
    class_ &def(const char *name, F &&f, const X &...x)
    {
        detail::extras e(x...);
        detail::add_function(m_ptr, name, detail::make_rec(detail::wrap(f), e, true), true, e.doc);
        if (std::strcmp(name, "__eq__") == 0) {
            // as pybind11: a class with __eq__ and no __hash__ is not hashable
            object d = this->attr("__dict__");
            if (!hash_defined) PyObject_SetAttrString(m_ptr, "__hash__", Py_None);
        }
        return *this;
    }
    template <class... A, class... X>
    class_ &def(init_t<A...> i, const X &...x)
    {
        detail::extras e(x...);
        detail::add_function(m_ptr, "__init__", detail::make_rec(detail::ctor<T>(i), e, true), true, e.doc);
        return *this;
    }
    template <class F, class... X>
    class_ &def(factory_t<F> i, const X &...x)
    {
        detail::extras e(x...);
        detail::add_function(m_ptr, "__init__",
                             detail::make_rec(detail::fctor<T>(i.f, static_cast<typename detail::sig<F>::args *>(nullptr)), e, true), true, e.doc);
        return *this;
    }
    template <class G, class S>
    class_ &def(pickle_t<G, S> p)
    {
        def("__getstate__", p.g);
        auto s = p.s;
        def("__setstate__", [s](object self, tuple t) { detail::set_value<T>(self.ptr(), new T(s(t))); });
        return *this;
    }
    template <class F, class... X>
    class_ &def_static(const char *name, F &&f, const X &...x)
    {
        detail::extras e(x...);
        detail::add_function(m_ptr, name, detail::make_rec(detail::wrap(f), e, false), false, e.doc);
        return *this;
    }
    template <class G, class S, class... X>
    class_ &def_property(const char *name, G &&g, S &&s, const X &...x)
    {
        detail::extras e(return_value_policy::reference_internal, x...);
        object fg = func(std::string(name) + "__get", detail::make_rec(detail::wrap(g), e, true));
        object fs = func(std::string(name) + "__set", detail::make_rec(detail::wrap(s), detail::extras(), true));
        set_prop(name, fg, fs, e.doc);
        return *this;
    }
    template <class G, class... X>
    class_ &def_property_readonly(const char *name, G &&g, const X &...x)
    {
        detail::extras e(return_value_policy::reference_internal, x...);
        object fg = func(std::string(name) + "__get", detail::make_rec(detail::wrap(g), e, true));
        set_prop(name, fg, none(), e.doc);
        return *this;
    }
    bool hash_defined = false;

private:
    static object func(const std::string &n, detail::rec r)
    {
        auto *o = new detail::overloads;
        o->name = n;
        o->md = {o->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&detail::dispatch)), METH_VARARGS | METH_KEYWORDS,
                 nullptr};
        o->v.push_back(std::move(r));
        object cap = object::steal(PyCapsule_New(o, nullptr, nullptr));
        return object::steal(PyCFunction_New(&o->md, cap.ptr()));
    }
    void set_prop(const char *name, const object &g, const object &s, const std::string &doc)
    {
        object prop = module_::import("builtins").attr("property");
        object p = prop(g, s, none(), str(doc));
        if (PyObject_SetAttrString(m_ptr, name, p.ptr()) != 0) throw error_already_set();
    }
    static constexpr int T_PYSSIZET_ = Py_T_PYSSIZET;
    static constexpr int READONLY_ = Py_READONLY;
};

template <class E>
class enum_ : public class_<E>
{
    object m_scope;
    std::vector<std::pair<std::string, object>> m_vals;

public:
    template <class... X>
    enum_(const handle &scope, const char *name, const X &...x) : class_<E>(scope, name, x...), m_scope(object::borrow(scope.ptr()))
    {
        this->hash_defined = true;
        this->def("__init__", [](object self, long v) { detail::set_value<E>(self.ptr(), new E(static_cast<E>(v))); });
        this->def("__int__", [](const E &e) { return static_cast<long>(e); });
        this->def("__index__", [](const E &e) { return static_cast<long>(e); });
        this->def("__hash__", [](const E &e) { return static_cast<long>(e); });
        this->def("__eq__", [](const E &a, const object &b) {
            caster<E> c;
            return c.load(b.ptr(), false) && c.get() == a;
        });
        this->def("__ne__", [](const E &a, const object &b) {
            caster<E> c;
            return !(c.load(b.ptr(), false) && c.get() == a);
        });
    }
    enum_ &value(const char *n, E v, const char * = nullptr)
    {
        object o = object::steal(to_py(E(v)));
        if (PyObject_SetAttrString(this->m_ptr, n, o.ptr()) != 0) throw error_already_set();
        m_vals.emplace_back(n, o);
        return *this;
    }
    enum_ &export_values()
    {
        for (auto &[n, o] : m_vals) PyObject_SetAttrString(m_scope.ptr(), n.c_str(), o.ptr());
        return *this;
    }
};
} // namespace pybind11

#define PYBIND11_MODULE(name, var)                                                                                                     \
    static void pyshim_init_##name(pybind11::module_ &);                                                                               \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name()                                                       \
    {                                                                                                                                  \
        static PyModuleDef def{PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};                \
        PyObject *m = PyModule_Create(&def);                                                                                           \
        if (!m) return nullptr;                                                                                                        \
        try {                                                                                                                          \
            pybind11::module_ mod(pybind11::object::borrow(m));                                                                       \
            pyshim_init_##name(mod);                                                                                                   \
        } catch (...) {                                                                                                                \
            pybind11::detail::translate();                                                                                             \
            return nullptr;                                                                                                            \
        }                                                                                                                              \
        return m;                                                                                                                      \
    }                                                                                                                                  \
    void pyshim_init_##name(pybind11::module_ &var)
#endif
