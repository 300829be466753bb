// A stand-in for pybind11, which is not installed here: the part of its
// interface that /repo/src/python uses, with the documented behaviour of
// pybind11 2.11 (overload resolution in two passes, return value policies,
// registered instances, implicit upcasts, exception translation). It lets the
// real bindings be compiled and run unchanged over the real Python.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cxxabi.h>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
#define PYBIND11_NAMESPACE pybind11

namespace pybind11 {

// ------------------------------------------------------------ errors
class error_already_set : public std::exception {
public:
  error_already_set() : _state(std::make_shared<State>()) {
    PyErr_Fetch(&_state->type, &_state->value, &_state->trace);
  }
  void restore() {
    Py_XINCREF(_state->type);
    Py_XINCREF(_state->value);
    Py_XINCREF(_state->trace);
    PyErr_Restore(_state->type, _state->value, _state->trace);
  }
  const char *what() const noexcept override { return "python error"; }

private:
  struct State {
    PyObject *type = nullptr, *value = nullptr, *trace = nullptr;
    ~State() {
      Py_XDECREF(type);
      Py_XDECREF(value);
      Py_XDECREF(trace);
    }
  };
  std::shared_ptr<State> _state;
};
class error_scope {
public:
  error_scope() { PyErr_Fetch(&_type, &_value, &_trace); }
  ~error_scope() { PyErr_Restore(_type, _value, _trace); }
  error_scope(const error_scope &) = delete;
  error_scope &operator=(const error_scope &) = delete;

private:
  PyObject *_type, *_value, *_trace;
};
class builtin_exception : public std::runtime_error {
public:
  using std::runtime_error::runtime_error;
  virtual PyObject *kind() const = 0;
};
#define XV_BUILTIN(name, python)                                               \
  class name : public builtin_exception {                                      \
  public:                                                                      \
    using builtin_exception::builtin_exception;                                \
    name() : builtin_exception("") {}                                          \
    PyObject *kind() const override { return python; }                         \
  }
XV_BUILTIN(stop_iteration, PyExc_StopIteration);
XV_BUILTIN(index_error, PyExc_IndexError);
XV_BUILTIN(key_error, PyExc_KeyError);
XV_BUILTIN(value_error, PyExc_ValueError);
XV_BUILTIN(type_error, PyExc_TypeError);
XV_BUILTIN(buffer_error, PyExc_BufferError);
XV_BUILTIN(import_error, PyExc_ImportError);
XV_BUILTIN(attribute_error, PyExc_AttributeError);
XV_BUILTIN(cast_error, PyExc_RuntimeError);
#undef XV_BUILTIN
class reference_cast_error : public cast_error {
public:
  using cast_error::cast_error;
};

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

// ------------------------------------------------------------ objects
class object;
class accessor;
template <typename T> object cast(T &&value, return_value_policy policy = return_value_policy::automatic_reference);
class handle {
public:
  handle() = default;
  handle(std::nullptr_t) {}
  handle(PyObject *p) : m_ptr(p) {}
  PyObject *ptr() const { return m_ptr; }
  PyObject *&ptr() { return m_ptr; }
  const handle &inc_ref() const { Py_XINCREF(m_ptr); return *this; }
  const handle &dec_ref() const { Py_XDECREF(m_ptr); return *this; }
  explicit operator bool() const { return m_ptr != nullptr; }
  bool is_none() const { return m_ptr == Py_None; }
  bool is(handle other) const { return m_ptr == other.m_ptr; }
  template <typename T> T cast() const;
  accessor attr(const char *name) const;
  accessor doc() const;
  template <typename... Args> object operator()(Args &&...args) const;
  bool equal(handle o) const { return compare(o, Py_EQ); }
  bool not_equal(handle o) const { return compare(o, Py_NE); }
  bool operator<(handle o) const { return compare(o, Py_LT); }
  bool operator<=(handle o) const { return compare(o, Py_LE); }
  bool operator>(handle o) const { return compare(o, Py_GT); }
  bool operator>=(handle o) const { return compare(o, Py_GE); }
  object operator-() const;
  object operator~() const;
  object operator+(handle o) const;
  object operator-(handle o) const;
  object operator*(handle o) const;
  object operator/(handle o) const;
  object operator|(handle o) const;
  object operator&(handle o) const;
  object operator^(handle o) const;
  object operator<<(handle o) const;
  object operator>>(handle o) const;

protected:
  PyObject *m_ptr = nullptr;

private:
  bool compare(handle o, int op) const {
    const int rc = PyObject_RichCompareBool(m_ptr, o.m_ptr, op);
    if (rc == -1) throw error_already_set();
    return rc == 1;
  }
};
struct borrowed_t {};
struct stolen_t {};
class object : public handle {
public:
  object() = default;
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(handle h, stolen_t) : handle(h) {}
  object(const object &o) : handle(o) { inc_ref(); }
  object(object &&o) noexcept : handle(o) { o.m_ptr = nullptr; }
  object &operator=(object o) noexcept { std::swap(m_ptr, o.m_ptr); return *this; }
  ~object() { dec_ref(); }
  handle release() { handle h = *this; m_ptr = nullptr; return h; }
};
template <typename T> T reinterpret_borrow(handle h) { return {h, borrowed_t{}}; }
template <typename T> T reinterpret_steal(handle h) { return {h, stolen_t{}}; }
namespace detail {
inline object checked(PyObject *p) {
  if (!p) throw error_already_set();
  return reinterpret_steal<object>(p);
}
} // namespace detail
inline object handle::operator-() const { return detail::checked(PyNumber_Negative(m_ptr)); }
inline object handle::operator~() const { return detail::checked(PyNumber_Invert(m_ptr)); }
inline object handle::operator+(handle o) const { return detail::checked(PyNumber_Add(m_ptr, o.m_ptr)); }
inline object handle::operator-(handle o) const { return detail::checked(PyNumber_Subtract(m_ptr, o.m_ptr)); }
inline object handle::operator*(handle o) const { return detail::checked(PyNumber_Multiply(m_ptr, o.m_ptr)); }
inline object handle::operator/(handle o) const { return detail::checked(PyNumber_TrueDivide(m_ptr, o.m_ptr)); }
inline object handle::operator|(handle o) const { return detail::checked(PyNumber_Or(m_ptr, o.m_ptr)); }
inline object handle::operator&(handle o) const { return detail::checked(PyNumber_And(m_ptr, o.m_ptr)); }
inline object handle::operator^(handle o) const { return detail::checked(PyNumber_Xor(m_ptr, o.m_ptr)); }
inline object handle::operator<<(handle o) const { return detail::checked(PyNumber_Lshift(m_ptr, o.m_ptr)); }
inline object handle::operator>>(handle o) const { return detail::checked(PyNumber_Rshift(m_ptr, o.m_ptr)); }

inline void setattr(handle o, const char *name, handle value) {
  if (PyObject_SetAttrString(o.ptr(), name, value.ptr()) != 0) throw error_already_set();
}
inline object getattr(handle o, const char *name) { return detail::checked(PyObject_GetAttrString(o.ptr(), name)); }
inline bool hasattr(handle o, const char *name) { return PyObject_HasAttrString(o.ptr(), name) == 1; }
class accessor {
public:
  accessor(handle o, std::string name) : _object(reinterpret_borrow<object>(o)), _name(std::move(name)) {}
  template <typename T> void operator=(T &&value) && { setattr(_object, _name.c_str(), pybind11::cast(std::forward<T>(value))); }
  template <typename T> void operator=(T &&value) & { setattr(_object, _name.c_str(), pybind11::cast(std::forward<T>(value))); }
  object get() const { return getattr(_object, _name.c_str()); }
  operator object() const { return get(); }
  template <typename... Args> object operator()(Args &&...args) const { return get()(std::forward<Args>(args)...); }
  template <typename T> T cast() const { return get().template cast<T>(); }
  accessor attr(const char *name) const { return {get(), name}; }

private:
  object _object;
  std::string _name;
};
inline accessor handle::attr(const char *name) const { return {*this, name}; }
inline accessor handle::doc() const { return attr("__doc__"); }
class none : public object {
public:
  none() : object(handle(Py_None), borrowed_t{}) {}
};
class args : public object {
public:
  using object::object;
  std::size_t size() const { return static_cast<std::size_t>(PyTuple_Size(m_ptr)); }
  handle operator[](std::size_t i) const { return PyTuple_GetItem(m_ptr, static_cast<Py_ssize_t>(i)); }
  class iterator {
  public:
    iterator(PyObject *t, Py_ssize_t i) : _t(t), _i(i) {}
    handle operator*() const { return PyTuple_GetItem(_t, _i); }
    iterator &operator++() { ++_i; return *this; }
    bool operator!=(const iterator &o) const { return _i != o._i; }
    bool operator==(const iterator &o) const { return _i == o._i; }

  private:
    PyObject *_t;
    Py_ssize_t _i;
  };
  iterator begin() const { return {m_ptr, 0}; }
  iterator end() const { return {m_ptr, PyTuple_Size(m_ptr)}; }
};
class kwargs : public object {
public:
  using object::object;
  std::size_t size() const { return static_cast<std::size_t>(PyDict_Size(m_ptr)); }
  class iterator {
  public:
    explicit iterator(PyObject *d) : _d(d) { if (_d) ++*this; }
    std::pair<handle, handle> operator*() const { return {_k, _v}; }
    iterator &operator++() { if (!PyDict_Next(_d, &_pos, &_k, &_v)) _d = nullptr; return *this; }
    bool operator!=(const iterator &o) const { return _d != o._d; }

  private:
    PyObject *_d, *_k = nullptr, *_v = nullptr;
    Py_ssize_t _pos = 0;
  };
  iterator begin() const { return iterator(m_ptr); }
  iterator end() const { return iterator(nullptr); }
};
class str : public object {
public:
  using object::object;
  str(const std::string &s) : object(handle(PyUnicode_FromStringAndSize(s.data(), static_cast<Py_ssize_t>(s.size()))), stolen_t{}) { if (!m_ptr) throw error_already_set(); }
};
class bool_ : public object {
public:
  bool_(bool v) : object(handle(v ? Py_True : Py_False), borrowed_t{}) {}
  explicit bool_(const object &o) : object(handle(), stolen_t{}) {
    const int r = PyObject_IsTrue(o.ptr());
    if (r < 0) throw error_already_set();
    m_ptr = r ? Py_True : Py_False;
    inc_ref();
  }
  operator bool() const { return m_ptr == Py_True; }
};
class int_ : public object {
public:
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>> int_(T v) : object(handle(std::is_unsigned_v<T> ? PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(v)) : PyLong_FromLongLong(static_cast<long long>(v))), stolen_t{}) {}
};
class float_ : public object {
public:
  float_(double v) : object(handle(PyFloat_FromDouble(v)), stolen_t{}) {}
};
class list : public object {
public:
  list() : object(handle(PyList_New(0)), stolen_t{}) {}
  template <typename T> void append(T &&v) { if (PyList_Append(m_ptr, pybind11::cast(std::forward<T>(v)).ptr()) != 0) throw error_already_set(); }
  std::size_t size() const { return static_cast<std::size_t>(PyList_Size(m_ptr)); }
};
class gil_scoped_release {
public:
  gil_scoped_release() : _s(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(_s); }
  gil_scoped_release(const gil_scoped_release &) = delete;
  gil_scoped_release &operator=(const gil_scoped_release &) = delete;

private:
  PyThreadState *_s;
};
class gil_scoped_acquire {
public:
  gil_scoped_acquire() : _s(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(_s); }
  gil_scoped_acquire(const gil_scoped_acquire &) = delete;
  gil_scoped_acquire &operator=(const gil_scoped_acquire &) = delete;

private:
  PyGILState_STATE _s;
};

// ------------------------------------------------------------ types and instances
template <typename itype, typename = void> struct polymorphic_type_hook {
  static const void *get(const itype *src, const std::type_info *&type) {
    if constexpr (std::is_polymorphic_v<itype>) {
      type = src ? &typeid(*src) : nullptr;
      return dynamic_cast<const void *>(src);
    } else {
      type = nullptr;
      return src;
    }
  }
};
namespace detail {
struct instance;
struct value_and_holder;
struct type_info {
  PyTypeObject *type = nullptr;
  const std::type_info *cpptype = nullptr;
  std::vector<std::pair<const std::type_info *, void *(*)(void *)>> bases;
  std::size_t type_size = 0, type_align = 0, holder_size = 0;
  void (*init_instance)(instance *, const void *) = nullptr;
  void (*dealloc)(value_and_holder &) = nullptr;
};
struct instance {
  PyObject_HEAD
  void *value;
  void *storage[2];
  bool owned, registered, constructed;
};
struct Internals {
  std::unordered_map<std::type_index, type_info *> global, local;
  std::unordered_map<PyTypeObject *, type_info *> python;
  std::unordered_multimap<const void *, instance *> instances;
  std::vector<std::function<bool(std::exception_ptr)>> translators; // the last first
  std::vector<std::unique_ptr<type_info>> types;
  PyTypeObject *base = nullptr;
  // what is watched
  std::size_t destroyed = 0; // values deleted through their wrapper
};
inline Internals &internals() { static Internals i; return i; }
inline type_info *get_local_type_info(const std::type_index &t) {
  auto &m = internals().local;
  auto it = m.find(t);
  return it == m.end() ? nullptr : it->second;
}
inline type_info *get_type_info(const std::type_index &t, bool = false) {
  if (auto *l = get_local_type_info(t)) return l;
  auto &m = internals().global;
  auto it = m.find(t);
  return it == m.end() ? nullptr : it->second;
}
struct value_and_holder {
  instance *inst = nullptr;
  const type_info *type = nullptr;
  value_and_holder(instance *i, const type_info *t, std::size_t, std::size_t) : inst(i), type(t) {}
  template <typename V = void> V *&value_ptr() const { return reinterpret_cast<V *&>(inst->value); }
  template <typename H> H &holder() const { return reinterpret_cast<H &>(inst->storage[0]); }
  bool holder_constructed() const { return inst->constructed; }
  void set_holder_constructed(bool v = true) const { inst->constructed = v; }
  bool instance_registered() const { return inst->registered; }
  void set_instance_registered(bool v = true) const { inst->registered = v; }
  explicit operator bool() const { return inst->value != nullptr; }
};
inline void register_instance(instance *self, void *value, const type_info *) { internals().instances.emplace(value, self); }
inline bool deregister_instance(instance *self, void *value, const type_info *) {
  auto range = internals().instances.equal_range(value);
  for (auto it = range.first; it != range.second; ++it)
    if (it->second == self) { internals().instances.erase(it); return true; }
  return false;
}
inline void call_operator_delete(void *p, std::size_t, std::size_t) { ::operator delete(p); }
inline std::string clean_type_id(const char *name) {
  int status = 0;
  std::unique_ptr<char, void (*)(void *)> p(abi::__cxa_demangle(name, nullptr, nullptr, &status), std::free);
  return status == 0 ? p.get() : name;
}
template <typename T> struct always_construct_holder { static constexpr bool value = false; };
/// the C++ type behind a Python type, or behind its first base that has one
inline type_info *of(PyTypeObject *t) {
  auto &m = internals().python;
  if (auto it = m.find(t); it != m.end()) return it->second;
  PyObject *mro = t->tp_mro;
  for (Py_ssize_t i = 0; mro && i < PyTuple_Size(mro); ++i)
    if (auto it = m.find(reinterpret_cast<PyTypeObject *>(PyTuple_GetItem(mro, i))); it != m.end()) return it->second;
  return nullptr;
}
inline void release(PyObject *self) {
  auto *inst = reinterpret_cast<instance *>(self);
  if (inst->value) {
    value_and_holder v(inst, of(Py_TYPE(self)), 0, 0);
    if (inst->registered) deregister_instance(inst, inst->value, v.type);
    inst->registered = false;
    if ((inst->owned || inst->constructed) && v.type) {
      ++internals().destroyed;
      v.type->dealloc(v);
    }
    inst->value = nullptr;
  }
}
inline void tpDealloc(PyObject *self) {
  PyTypeObject *type = Py_TYPE(self);
  release(self);
  type->tp_free(self);
  Py_DECREF(type);
}
inline PyObject *tpNew(PyTypeObject *type, PyObject *, PyObject *) {
  PyObject *self = type->tp_alloc(type, 0);
  if (self) {
    auto *i = reinterpret_cast<instance *>(self);
    i->value = nullptr;
    i->owned = true;
    i->registered = i->constructed = false;
  }
  return self;
}
inline int tpInit(PyObject *self, PyObject *, PyObject *) {
  PyErr_SetString(PyExc_TypeError, (std::string(Py_TYPE(self)->tp_name) + ": No constructor defined!").c_str());
  return -1;
}
inline PyTypeObject *base() {
  auto &i = internals();
  if (!i.base) {
    static PyType_Slot slots[] = {{Py_tp_dealloc, reinterpret_cast<void *>(tpDealloc)}, {Py_tp_new, reinterpret_cast<void *>(tpNew)}, {Py_tp_init, reinterpret_cast<void *>(tpInit)}, {0, nullptr}};
    static PyType_Spec spec{"pybind11_builtins.pybind11_object", sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    i.base = reinterpret_cast<PyTypeObject *>(PyType_FromSpec(&spec));
    if (!i.base) throw error_already_set();
  }
  return i.base;
}
struct type_record {
  handle scope;
  const char *name = nullptr;
  const std::type_info *type = nullptr;
  std::size_t type_size = 0, type_align = 0, holder_size = 0;
  void (*init_instance)(instance *, const void *) = nullptr;
  void (*dealloc)(value_and_holder &) = nullptr;
  const char *doc = nullptr;
  bool multiple_inheritance = false, dynamic_attr = false, buffer_protocol = false, default_holder = true, module_local = false, is_final = false;
  std::vector<std::pair<const std::type_info *, void *(*)(void *)>> parents;
  void add_base(const std::type_info &b, void *(*caster)(void *)) { parents.emplace_back(&b, caster); }
};
class generic_type : public object {
public:
  using object::object;

protected:
  void initialize(const type_record &rec) {
    auto &in = internals();
    if (rec.module_local ? get_local_type_info(*rec.type) != nullptr : get_type_info(*rec.type) != nullptr) throw std::runtime_error(std::string("generic_type: type \"") + rec.name + "\" is already registered!");
    PyObject *bases = PyTuple_New(rec.parents.empty() ? 1 : static_cast<Py_ssize_t>(rec.parents.size()));
    if (rec.parents.empty()) {
      Py_INCREF(base());
      PyTuple_SetItem(bases, 0, reinterpret_cast<PyObject *>(base()));
    }
    for (std::size_t i = 0; i < rec.parents.size(); ++i) {
      auto *p = get_type_info(*rec.parents[i].first);
      if (!p) throw std::runtime_error(std::string("generic_type: type \"") + rec.name + "\" referenced unknown base type \"" + clean_type_id(rec.parents[i].first->name()) + "\"");
      Py_INCREF(p->type);
      PyTuple_SetItem(bases, static_cast<Py_ssize_t>(i), reinterpret_cast<PyObject *>(p->type));
    }
    PyObject *dict = PyDict_New(), *slots = PyTuple_New(0);
    PyDict_SetItemString(dict, "__slots__", slots);
    Py_DECREF(slots);
    if (rec.scope) {
      PyObject *module = PyObject_GetAttrString(rec.scope.ptr(), "__name__");
      if (module) { PyDict_SetItemString(dict, "__module__", module); Py_DECREF(module); } else PyErr_Clear();
    }
    PyObject *t = PyObject_CallFunction(reinterpret_cast<PyObject *>(&PyType_Type), "sOO", rec.name, bases, dict);
    Py_DECREF(bases);
    Py_DECREF(dict);
    if (!t) throw error_already_set();
    m_ptr = t;
    if (rec.scope) setattr(rec.scope, rec.name, *this);
    auto info = std::make_unique<type_info>();
    info->type = reinterpret_cast<PyTypeObject *>(t);
    info->cpptype = rec.type;
    info->bases = rec.parents;
    info->type_size = rec.type_size;
    info->type_align = rec.type_align;
    info->holder_size = rec.holder_size;
    info->init_instance = rec.init_instance;
    info->dealloc = rec.dealloc;
    (rec.module_local ? in.local : in.global)[*rec.type] = info.get();
    in.python[info->type] = info.get();
    Py_INCREF(t); // types live as long as the process
    in.types.push_back(std::move(info));
  }
};
/// the value of an instance as one of its bases
inline bool upcast(const type_info *from, void *value, const std::type_info &to, void *&result) {
  if (*from->cpptype == to) { result = value; return true; }
  for (const auto &b : from->bases)
    if (auto *p = get_type_info(*b.first))
      if (upcast(p, b.second(value), to, result)) return true;
  return false;
}
/// whether a type has another among its bases, without looking at a value
inline bool derives(const type_info *from, const std::type_info &to) {
  if (*from->cpptype == to) return true;
  for (const auto &b : from->bases)
    if (auto *p = get_type_info(*b.first))
      if (derives(p, to)) return true;
  return false;
}
inline handle wrap(const void *src, const type_info *type, return_value_policy policy, void *(*copy)(const void *), void *(*move)(void *), const void *holder) {
  if (!src) return handle(Py_None).inc_ref();
  auto range = internals().instances.equal_range(src);
  for (auto it = range.first; it != range.second; ++it)
    if (auto *t = of(Py_TYPE(reinterpret_cast<PyObject *>(it->second))); t && *t->cpptype == *type->cpptype) return handle(reinterpret_cast<PyObject *>(it->second)).inc_ref();
  PyObject *self = tpNew(type->type, nullptr, nullptr);
  if (!self) throw error_already_set();
  auto *inst = reinterpret_cast<instance *>(self);
  inst->owned = false;
  switch (policy) {
  case return_value_policy::automatic:
  case return_value_policy::take_ownership: inst->value = const_cast<void *>(src); inst->owned = true; break;
  case return_value_policy::automatic_reference:
  case return_value_policy::reference:
  case return_value_policy::reference_internal: inst->value = const_cast<void *>(src); break;
  case return_value_policy::copy:
    if (!copy) { Py_DECREF(self); throw cast_error("return_value_policy = copy, but type is non-copyable!"); }
    inst->value = copy(src);
    inst->owned = true;
    break;
  case return_value_policy::move:
    if (!move && !copy) { Py_DECREF(self); throw cast_error("return_value_policy = move, but type is neither movable nor copyable!"); }
    inst->value = move ? move(const_cast<void *>(src)) : copy(src);
    inst->owned = true;
    break;
  }
  type->init_instance(inst, holder);
  return self;
}

// ------------------------------------------------------------ casters
/// load(handle, convert) gives whether a Python object can be a T; get()
/// yields it; cast() makes a Python object of a T
template <typename T, typename = void> struct caster;
template <typename T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <> struct caster<bool> {
  bool value = false;
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.ptr() == Py_True) { value = true; return true; }
    if (src.ptr() == Py_False) { value = false; return true; }
    if (!convert) return false;
    Py_ssize_t res = -1;
    if (src.is_none()) res = 0;
    else if (auto *n = Py_TYPE(src.ptr())->tp_as_number; n && n->nb_bool) res = n->nb_bool(src.ptr());
    if (res == 0 || res == 1) { value = res != 0; return true; }
    PyErr_Clear();
    return false;
  }
  static handle cast(bool v, return_value_policy) { return handle(v ? Py_True : Py_False).inc_ref(); }
};
template <typename T> constexpr bool isCharacter = std::is_same_v<T, char>;
template <typename T> struct caster<T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool> && !isCharacter<T>>> {
  T value{};
  bool load(handle src, bool convert) {
    if (!src) return false;
    using P = std::conditional_t<std::is_floating_point_v<T>, double, std::conditional_t<std::is_unsigned_v<T>, unsigned long, long>>;
    P p;
    if constexpr (std::is_floating_point_v<T>) {
      if (!convert && !PyFloat_Check(src.ptr())) return false;
      p = PyFloat_AsDouble(src.ptr());
    } else {
      if (PyFloat_Check(src.ptr()) || (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr()))) return false;
      object index;
      PyObject *n = src.ptr();
      if (!PyLong_Check(n)) {
        index = object(handle(PyNumber_Index(n)), stolen_t{});
        if (!index) {
          PyErr_Clear();
          if (!convert) return false;
        } else n = index.ptr();
      }
      if constexpr (std::is_unsigned_v<T>) p = PyLong_AsUnsignedLong(n);
      else p = PyLong_AsLong(n);
    }
    const bool error = p == static_cast<P>(-1) && PyErr_Occurred();
    bool fits = true;
    if constexpr (std::is_integral_v<T> && sizeof(P) != sizeof(T)) fits = p == static_cast<P>(static_cast<T>(p));
    if (error || !fits) {
      PyErr_Clear();
      if (error && convert && PyNumber_Check(src.ptr())) {
        object tmp(handle(std::is_floating_point_v<T> ? PyNumber_Float(src.ptr()) : PyNumber_Long(src.ptr())), stolen_t{});
        PyErr_Clear();
        return load(tmp, false);
      }
      return false;
    }
    value = static_cast<T>(p);
    return true;
  }
  static handle cast(T v, return_value_policy) {
    if constexpr (std::is_floating_point_v<T>) return PyFloat_FromDouble(static_cast<double>(v));
    else if constexpr (std::is_unsigned_v<T>) return PyLong_FromUnsignedLongLong(v);
    else return PyLong_FromLongLong(v);
  }
};
template <> struct caster<std::string> {
  std::string value;
  bool load(handle src, bool) {
    if (!src) return false;
    if (PyUnicode_Check(src.ptr())) {
      Py_ssize_t n = 0;
      const char *s = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
      if (!s) { PyErr_Clear(); return false; }
      value.assign(s, static_cast<std::size_t>(n));
      return true;
    }
    if (PyBytes_Check(src.ptr())) { value.assign(PyBytes_AsString(src.ptr()), static_cast<std::size_t>(PyBytes_Size(src.ptr()))); return true; }
    if (PyByteArray_Check(src.ptr())) { value.assign(PyByteArray_AsString(src.ptr()), static_cast<std::size_t>(PyByteArray_Size(src.ptr()))); return true; }
    return false;
  }
  static handle cast(const std::string &s, return_value_policy) {
    PyObject *p = PyUnicode_DecodeUTF8(s.data(), static_cast<Py_ssize_t>(s.size()), nullptr);
    if (!p) throw error_already_set();
    return p;
  }
};
/// one character, and texts that end with a null character
template <> struct caster<char> {
  caster<std::string> text;
  bool none = false;
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.is_none()) { none = true; return convert; }
    return text.load(src, convert);
  }
  const char *pointer() const { return none ? nullptr : text.value.c_str(); }
  char character() const {
    if (none) throw value_error("Cannot convert None to a character");
    const auto &v = text.value;
    if (v.empty()) throw value_error("Cannot convert empty string to a character");
    const auto c = static_cast<unsigned char>(v[0]);
    if (v.size() > 1) {
      const std::size_t n = (c & 0x80) == 0 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : 4;
      if (n == v.size() && n == 2 && (c & 0xFC) == 0xC0) return static_cast<char>(((c & 3) << 6) + (static_cast<unsigned char>(v[1]) & 0x3F));
      if (n == v.size()) throw value_error("Character code point not in range(0x100)");
      throw value_error("Expected a character, but multi-character string found");
    }
    return v[0];
  }
  static handle cast(char v, return_value_policy) {
    PyObject *p = PyUnicode_DecodeLatin1(&v, 1, nullptr);
    if (!p) throw error_already_set();
    return p;
  }
  static handle cast(const char *v, return_value_policy policy) {
    if (!v) return handle(Py_None).inc_ref();
    return caster<std::string>::cast(v, policy);
  }
};
/// any registered class
template <typename T> struct caster<T, std::enable_if_t<(std::is_class_v<T> || std::is_enum_v<T>)&&!std::is_base_of_v<handle, T> && !std::is_same_v<T, std::string>>> {
  void *value = nullptr;
  bool load(handle src, bool convert) {
    if (!src || !get_type_info(typeid(T))) return false;
    if (auto *t = of(Py_TYPE(src.ptr())); t && PyObject_TypeCheck(src.ptr(), base())) {
      auto *inst = reinterpret_cast<instance *>(src.ptr());
      if (!inst->value) return false; // not constructed
      if (upcast(t, inst->value, typeid(T), value)) return true;
    }
    if (src.is_none()) { value = nullptr; return convert; }
    return false;
  }
  T *pointer() const { return static_cast<T *>(value); }
  T &reference() const {
    if (!value) throw reference_cast_error("null reference");
    return *static_cast<T *>(value);
  }
  static handle cast(const T *src, return_value_policy policy, const void *holder = nullptr) {
    const std::type_info *dynamic = nullptr;
    const void *p = src;
    const type_info *info = nullptr;
    if constexpr (std::is_class_v<T>) {
      p = polymorphic_type_hook<T>::get(src, dynamic);
      if (dynamic && *dynamic != typeid(T)) info = get_type_info(*dynamic);
    }
    if (!info) { info = get_type_info(typeid(T)); p = src; }
    if (!info) {
      PyErr_SetString(PyExc_TypeError, ("Unregistered type : " + clean_type_id((dynamic ? *dynamic : typeid(T)).name())).c_str());
      throw error_already_set();
    }
    void *(*copy)(const void *) = nullptr;
    void *(*move)(void *) = nullptr;
    if constexpr (std::is_copy_constructible_v<T>) copy = [](const void *v) -> void * { return new T(*static_cast<const T *>(v)); };
    if constexpr (std::is_move_constructible_v<T>) move = [](void *v) -> void * { return new T(std::move(*static_cast<T *>(v))); };
    return wrap(p, info, policy, copy, move, holder);
  }
};
/// what a Python object is converted to for a parameter or result of type A
template <typename A> struct argument {
  using T = bare<A>;
  caster<T> c;
  bool load(handle h, bool convert) { return c.load(h, convert); }
  decltype(auto) get() {
    if constexpr (std::is_same_v<T, char>) return c.character();
    else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) return (c.value);
    else if constexpr (std::is_reference_v<A>) return static_cast<A>(c.reference());
    else return T(c.reference());
  }
};
template <typename P> struct argument<P *> {
  using T = std::remove_cv_t<P>;
  caster<T> c;
  bool load(handle h, bool convert) { return c.load(h, convert); }
  P *get() { return c.pointer(); }
};
struct anyArgument {
  object o;
  bool load(handle h, bool) { if (!h) return false; o = object(h, borrowed_t{}); return true; }
};
template <> struct argument<handle> : anyArgument { handle get() { return o; } };
template <> struct argument<const handle &> : anyArgument { const handle &get() { return o; } };
template <> struct argument<object> : anyArgument { object get() { return o; } };
template <> struct argument<const object &> : anyArgument { const object &get() { return o; } };
template <> struct argument<args> : anyArgument { args get() { return {o, borrowed_t{}}; } };
template <> struct argument<const args &> : anyArgument { args get() { return {o, borrowed_t{}}; } };
template <> struct argument<kwargs> : anyArgument { kwargs get() { return {o, borrowed_t{}}; } };
template <> struct argument<const kwargs &> : anyArgument { kwargs get() { return {o, borrowed_t{}}; } };
template <typename T> struct isUnique : std::false_type {};
template <typename V> struct isUnique<std::unique_ptr<V>> : std::true_type { using element = V; };
/// a Python object of a result; R is the declared type of the result
template <typename R> handle result(R &&value, return_value_policy policy) {
  using T = bare<R>;
  if constexpr (std::is_base_of_v<handle, T>) return handle(value).inc_ref();
  else if constexpr (std::is_same_v<T, accessor>) return value.get().release();
  else if constexpr (isUnique<T>::value) return caster<typename isUnique<T>::element>::cast(value.get(), return_value_policy::take_ownership, std::addressof(value));
  else if constexpr (std::is_array_v<T>) return caster<char>::cast(static_cast<const char *>(value), policy);
  else if constexpr (std::is_pointer_v<T>) {
    using V = std::remove_cv_t<std::remove_pointer_t<T>>;
    if constexpr (std::is_same_v<V, char>) return caster<char>::cast(static_cast<const char *>(value), policy);
    else {
      if (policy == return_value_policy::automatic) policy = return_value_policy::take_ownership;
      else if (policy == return_value_policy::automatic_reference) policy = return_value_policy::reference;
      return caster<V>::cast(value, policy);
    }
  } else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) return caster<T>::cast(value, policy);
  else {
    if (policy == return_value_policy::automatic || policy == return_value_policy::automatic_reference) policy = std::is_lvalue_reference_v<R> ? return_value_policy::copy : return_value_policy::move;
    else if (!std::is_lvalue_reference_v<R> && policy != return_value_policy::move) policy = return_value_policy::move;
    return caster<T>::cast(std::addressof(value), policy);
  }
}
} // namespace detail
template <typename T> object cast(T &&value, return_value_policy policy) { return reinterpret_steal<object>(detail::result<T>(std::forward<T>(value), policy)); }
template <typename T> T handle::cast() const {
  detail::argument<T> a;
  if (!a.load(*this, true)) throw cast_error("Unable to cast Python instance to C++ type");
  return a.get();
}
template <typename T> T cast(const handle &h) { return h.cast<T>(); }
template <typename T> bool isinstance(handle h) {
  auto *t = detail::get_type_info(typeid(T));
  return t && PyObject_IsInstance(h.ptr(), reinterpret_cast<PyObject *>(t->type)) == 1;
}
template <typename... Args> object handle::operator()(Args &&...a) const {
  PyObject *t = PyTuple_New(sizeof...(Args));
  Py_ssize_t i = 0;
  ((void)PyTuple_SetItem(t, i++, pybind11::cast(std::forward<Args>(a)).release().ptr()), ...);
  PyObject *r = PyObject_Call(m_ptr, t, nullptr);
  Py_DECREF(t);
  return detail::checked(r);
}

// ------------------------------------------------------------ functions
struct arg_v;
struct arg {
  constexpr explicit arg(const char *n = nullptr) : name(n) {}
  template <typename T> arg_v operator=(T &&value) const;
  arg &noconvert(bool v = true) { no = v; return *this; }
  const char *name;
  bool no = false;
};
struct arg_v : arg {
  arg_v(const arg &a, object v) : arg(a), value(std::move(v)) {}
  object value;
};
template <typename T> arg_v arg::operator=(T &&v) const { return {*this, pybind11::cast(std::forward<T>(v))}; }
struct multiple_inheritance {};
struct dynamic_attr {};
struct is_operator {};
inline constexpr std::true_type const_{};
template <typename... Args> struct overload_cast_impl {
  template <typename R> constexpr auto operator()(R (*f)(Args...)) const { return f; }
  template <typename R, typename C> constexpr auto operator()(R (C::*f)(Args...), std::false_type = {}) const { return f; }
  template <typename R, typename C> constexpr auto operator()(R (C::*f)(Args...) const, std::true_type) const { return f; }
};
template <typename... Args> inline constexpr overload_cast_impl<Args...> overload_cast{};
namespace detail {
struct function_record {
  std::string name;
  std::vector<arg_v> arguments; // those of the C++ function, without args and kwargs
  std::vector<bool> defaulted;
  bool hasArgs = false, hasKwargs = false;
  std::size_t positional = 0;
  bool isOperator = false, isInit = false;
  /// one more try: returns null when the arguments do not fit
  std::function<handle(std::vector<handle> &, bool convert)> call;
  std::unique_ptr<function_record> next;
};
template <typename F> struct signature : signature<decltype(&F::operator())> {};
template <typename R, typename... A> struct signature<R (*)(A...)> { using result = R; using arguments = std::tuple<A...>; };
template <typename R, typename... A> struct signature<R (*)(A...) noexcept> : signature<R (*)(A...)> {};
template <typename R, typename C, typename... A> struct signature<R (C::*)(A...)> : signature<R (*)(A...)> {};
template <typename R, typename C, typename... A> struct signature<R (C::*)(A...) const> : signature<R (*)(A...)> {};
template <typename T> struct isArgs : std::is_same<bare<T>, args> {};
template <typename T> struct isKwargs : std::is_same<bare<T>, kwargs> {};
inline void extra(function_record &, return_value_policy &p, return_value_policy q) { p = q; }
inline void extra(function_record &, return_value_policy &, const char *) {}
inline void extra(function_record &r, return_value_policy &, const arg &a) { r.arguments.emplace_back(a, object()); }
inline void extra(function_record &r, return_value_policy &, const arg_v &a) { r.arguments.push_back(a); }
inline void extra(function_record &r, return_value_policy &, const is_operator &) { r.isOperator = true; }
template <typename R, typename F, typename... A, std::size_t... I>
void bind(function_record &rec, F f, return_value_policy policy, std::tuple<A...> *, std::index_sequence<I...>) {
  rec.hasArgs = (isArgs<A>::value || ...);
  rec.hasKwargs = (isKwargs<A>::value || ...);
  rec.positional = sizeof...(A) - (rec.hasArgs ? 1 : 0) - (rec.hasKwargs ? 1 : 0);
  rec.call = [f = std::move(f), policy](std::vector<handle> &values, bool convert) -> handle {
    std::tuple<argument<A>...> loaders;
    if (!(std::get<I>(loaders).load(values[I], convert) && ...)) return {};
    if constexpr (std::is_void_v<R>) {
      f(std::get<I>(loaders).get()...);
      return handle(Py_None).inc_ref();
    } else {
      return detail::result<R>(f(std::get<I>(loaders).get()...), policy);
    }
  };
}
template <typename F> auto make(F f, std::unique_ptr<function_record> &rec, return_value_policy policy) {
  using S = signature<F>;
  using T = typename S::arguments;
  bind<typename S::result>(*rec, std::move(f), policy, static_cast<T *>(nullptr), std::make_index_sequence<std::tuple_size_v<T>>{});
}
/// raises the Python error of the exception being handled
inline void translate() {
  auto e = std::current_exception();
  for (auto it = internals().translators.rbegin(); it != internals().translators.rend(); ++it)
    if ((*it)(e)) return;
  try {
    std::rethrow_exception(e);
  } catch (error_already_set &x) { x.restore();
  } catch (const builtin_exception &x) { PyErr_SetString(x.kind(), x.what());
  } catch (const std::bad_alloc &x) { PyErr_SetString(PyExc_MemoryError, x.what());
  } catch (const std::domain_error &x) { PyErr_SetString(PyExc_ValueError, x.what());
  } catch (const std::invalid_argument &x) { PyErr_SetString(PyExc_ValueError, x.what());
  } catch (const std::length_error &x) { PyErr_SetString(PyExc_ValueError, x.what());
  } catch (const std::out_of_range &x) { PyErr_SetString(PyExc_IndexError, x.what());
  } catch (const std::range_error &x) { PyErr_SetString(PyExc_ValueError, x.what());
  } catch (const std::overflow_error &x) { PyErr_SetString(PyExc_OverflowError, x.what());
  } catch (const std::exception &x) { PyErr_SetString(PyExc_RuntimeError, x.what());
  } catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}
/// arranges the arguments of a call for one overload; false when they do not fit
inline bool arrange(const function_record &r, PyObject *in, PyObject *named, std::vector<handle> &values, object &rest, object &others) {
  const auto given = static_cast<std::size_t>(PyTuple_Size(in));
  if (!r.hasArgs && given > r.positional) return false;
  if (given < r.positional && r.arguments.size() < r.positional) return false;
  values.clear();
  std::size_t used = 0;
  for (std::size_t i = 0; i < r.positional; ++i) {
    const arg_v *a = r.arguments.size() == r.positional ? &r.arguments[i] : nullptr;
    handle byName = a && a->name && named ? handle(PyDict_GetItemString(named, a->name)) : handle();
    if (i < given) {
      if (byName) return false; // given twice
      values.emplace_back(PyTuple_GetItem(in, static_cast<Py_ssize_t>(i)));
    } else if (byName) {
      values.push_back(byName);
      ++used;
    } else if (a && a->value) values.push_back(a->value);
    else return false;
  }
  if (r.hasArgs) {
    rest = object(handle(given > r.positional ? PyTuple_GetSlice(in, static_cast<Py_ssize_t>(r.positional), static_cast<Py_ssize_t>(given)) : PyTuple_New(0)), stolen_t{});
    values.push_back(rest);
  }
  const std::size_t names = named ? static_cast<std::size_t>(PyDict_Size(named)) : 0;
  if (r.hasKwargs) {
    others = object(handle(named ? PyDict_Copy(named) : PyDict_New()), stolen_t{});
    for (const auto &a : r.arguments) if (a.name && PyDict_GetItemString(others.ptr(), a.name)) PyDict_DelItemString(others.ptr(), a.name);
    values.push_back(others);
  } else if (used != names) return false;
  return true;
}
inline PyObject *dispatch(PyObject *self, PyObject *in, PyObject *named) {
  auto *first = static_cast<function_record *>(PyCapsule_GetPointer(self, nullptr));
  const bool overloaded = first->next != nullptr;
  try {
    std::vector<handle> values;
    for (int pass = overloaded ? 0 : 1; pass < 2; ++pass)
      for (auto *r = first; r; r = r->next.get()) {
        object rest, others;
        if (!arrange(*r, in, named, values, rest, others)) continue;
        try {
          if (auto h = r->call(values, pass == 1)) {
            if (!h.ptr()) throw error_already_set();
            return h.ptr();
          }
        } catch (reference_cast_error &) {
        }
      }
  } catch (...) {
    translate();
    return nullptr;
  }
  if (first->isOperator) { Py_INCREF(Py_NotImplemented); return Py_NotImplemented; }
  object shown(handle(PyObject_Repr(in)), stolen_t{});
  PyErr_Clear();
  const char *text = shown ? PyUnicode_AsUTF8(shown.ptr()) : nullptr;
  PyErr_Clear();
  PyErr_SetString(PyExc_TypeError, (first->name + "(): incompatible function arguments: " + (text ? text : "?")).c_str());
  return nullptr;
}
inline std::map<function_record *, PyMethodDef> &methods() { static std::map<function_record *, PyMethodDef> m; return m; }
/// adds a function to a scope, after those of the same name it already has
inline void addFunction(handle scope, std::unique_ptr<function_record> rec, bool method) {
  const std::string name = rec->name;
  // an overload of the same scope?
  object dict(handle(PyObject_GetAttrString(scope.ptr(), "__dict__")), stolen_t{});
  if (!dict) throw error_already_set();
  object old(handle(PyMapping_HasKeyString(dict.ptr(), name.c_str()) ? PyMapping_GetItemString(dict.ptr(), name.c_str()) : nullptr), stolen_t{});
  if (old) {
    PyObject *f = PyInstanceMethod_Check(old.ptr()) ? PyInstanceMethod_Function(old.ptr()) : old.ptr();
    if (PyCFunction_Check(f) && PyCFunction_GetFunction(f) == reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch))) {
      auto *r = static_cast<function_record *>(PyCapsule_GetPointer(PyCFunction_GetSelf(f), nullptr));
      while (r->next) r = r->next.get();
      r->next = std::move(rec);
      return;
    }
  }
  auto *raw = rec.release(); // functions live as long as the process
  auto &def = methods()[raw];
  def = PyMethodDef{raw->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch)), METH_VARARGS | METH_KEYWORDS, nullptr};
  object capsule(handle(PyCapsule_New(raw, nullptr, nullptr)), stolen_t{});
  object f = checked(PyCFunction_New(&def, capsule.ptr()));
  if (method) f = checked(PyInstanceMethod_New(f.ptr()));
  setattr(scope, name.c_str(), f);
  if (method && name == "__eq__" && PyMapping_HasKeyString(dict.ptr(), "__hash__") == 0) setattr(scope, "__hash__", none());
}
template <typename F, typename... Extra> std::unique_ptr<function_record> record(const char *name, F f, bool method, const Extra &...extras) {
  auto rec = std::make_unique<function_record>();
  rec->name = name;
  auto policy = return_value_policy::automatic;
  (extra(*rec, policy, extras), ...);
  if (method && !rec->arguments.empty()) rec->arguments.insert(rec->arguments.begin(), arg_v(arg("self"), object()));
  make(std::move(f), rec, policy);
  return rec;
}
} // namespace detail

class module_ : public object {
public:
  using object::object;
  static module_ import(const char *name) {
    PyObject *m = PyImport_ImportModule(name);
    if (!m) throw error_already_set();
    return {handle(m), stolen_t{}};
  }
  template <typename F, typename... Extra> module_ &def(const char *name, F &&f, const Extra &...extras) {
    detail::addFunction(*this, detail::record(name, std::decay_t<F>(std::forward<F>(f)), false, extras...), false);
    return *this;
  }
  module_ def_submodule(const char *name, const char *doc = nullptr) {
    const std::string full = std::string(PyModule_GetName(m_ptr)) + "." + name;
    PyObject *m = PyImport_AddModule(full.c_str()); // borrowed
    if (!m) throw error_already_set();
    module_ result(handle(m), borrowed_t{});
    if (doc) result.attr("__doc__") = doc;
    setattr(*this, name, result);
    return result;
  }
};
template <typename... Args> struct init_t {};
template <typename... Args> init_t<Args...> init() { return {}; }
template <typename T, typename... Bases> class class_ : public detail::generic_type {
public:
  using type = T;
  using holder_type = std::unique_ptr<T>;
  template <typename... Extra> class_(handle scope, const char *name, const Extra &...extras) {
    detail::type_record rec;
    rec.scope = scope;
    rec.name = name;
    rec.type = &typeid(T);
    rec.type_size = sizeof(T);
    rec.type_align = alignof(T);
    rec.holder_size = sizeof(holder_type);
    rec.init_instance = init_instance;
    rec.dealloc = dealloc;
    (rec.add_base(typeid(Bases), [](void *p) -> void * { return static_cast<Bases *>(reinterpret_cast<T *>(p)); }), ...);
    (classExtra(rec, extras), ...);
    initialize(rec);
    if (rec.doc) doc() = rec.doc;
  }
  template <typename F, typename... Extra> class_ &def(const char *name, F &&f, const Extra &...extras) {
    detail::addFunction(*this, detail::record(name, adapt(std::forward<F>(f)), true, extras...), true);
    return *this;
  }
  template <typename... Args, typename... Extra> class_ &def(const init_t<Args...> &, const Extra &...extras) {
    detail::addFunction(*this, detail::record("__init__", [](handle self, Args... args) {
      auto *inst = reinterpret_cast<detail::instance *>(self.ptr());
      inst->value = new T(args...);
      inst->owned = true;
      init_instance(inst, nullptr);
    }, true, extras...), true);
    return *this;
  }
  template <typename C, typename D, typename... Extra> class_ &def_readwrite(const char *name, D C::*pm, const Extra &...) { property(name, [pm](const T &t) -> D { return t.*pm; }, [pm](T &t, const D &v) { t.*pm = v; }); return *this; }
  template <typename C, typename D, typename... Extra> class_ &def_readonly(const char *name, const D C::*pm, const Extra &...) { property(name, [pm](const T &t) -> D { return t.*pm; }, nullptr); return *this; }
  template <typename F, typename... Extra> class_ &def_property_readonly(const char *name, F &&f, const Extra &...) { property(name, adapt(std::forward<F>(f)), nullptr); return *this; }
  template <typename D, typename... Extra> class_ &def_readonly_static(const char *name, const D *pm, const Extra &...) { setattr(*this, name, pybind11::cast(*pm)); return *this; }
  template <typename F, typename... Extra> class_ &def_static(const char *name, F &&f, const Extra &...extras) {
    auto rec = detail::record(name, std::decay_t<F>(std::forward<F>(f)), false, extras...);
    detail::addFunction(*this, std::move(rec), false);
    return *this;
  }

private:
  static void classExtra(detail::type_record &r, const multiple_inheritance &) { r.multiple_inheritance = true; }
  static void classExtra(detail::type_record &, const dynamic_attr &) {}
  static void classExtra(detail::type_record &r, const char *d) { r.doc = d; }
  static void init_instance(detail::instance *inst, const void *holder) {
    auto *info = detail::get_type_info(typeid(T));
    detail::value_and_holder v(inst, info, 0, 0);
    if (!v.instance_registered()) {
      detail::register_instance(inst, v.value_ptr(), info);
      v.set_instance_registered();
    }
    if constexpr (std::is_destructible_v<T>) {
      if (holder) {
        new (&v.template holder<holder_type>()) holder_type(std::move(*const_cast<holder_type *>(static_cast<const holder_type *>(holder))));
        v.set_holder_constructed();
      } else if (inst->owned) {
        new (&v.template holder<holder_type>()) holder_type(v.template value_ptr<T>());
        v.set_holder_constructed();
      }
    }
  }
  static void dealloc(detail::value_and_holder &v) {
    const error_scope scope;
    if (v.holder_constructed()) {
      if constexpr (std::is_destructible_v<T>) v.template holder<holder_type>().~holder_type();
      v.set_holder_constructed(false);
    } else detail::call_operator_delete(v.template value_ptr<T>(), v.type->type_size, v.type->type_align);
    v.value_ptr() = nullptr;
  }
  template <typename R, typename C, typename... A> static auto adapt(R (C::*f)(A...)) { return [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }; }
  template <typename R, typename C, typename... A> static auto adapt(R (C::*f)(A...) const) { return [f](const T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }; }
  template <typename R, typename C, typename... A> static auto adapt(R (C::*f)(A...) noexcept) { return [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }; }
  template <typename R, typename C, typename... A> static auto adapt(R (C::*f)(A...) const noexcept) { return [f](const T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }; }
  template <typename F, typename = std::enable_if_t<!std::is_member_function_pointer_v<std::decay_t<F>>>> static std::decay_t<F> adapt(F &&f) { return std::forward<F>(f); }
  template <typename G, typename S> void property(const char *name, G getter, S setter) {
    auto function = [&](auto f) {
      auto rec = detail::record(name, std::move(f), true);
      auto *raw = rec.release();
      auto &def = detail::methods()[raw];
      def = PyMethodDef{raw->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(detail::dispatch)), METH_VARARGS | METH_KEYWORDS, nullptr};
      object capsule(handle(PyCapsule_New(raw, nullptr, nullptr)), stolen_t{});
      return detail::checked(PyCFunction_New(&def, capsule.ptr()));
    };
    object get = function(getter), set = none();
    if constexpr (!std::is_same_v<S, std::nullptr_t>) set = function(setter);
    setattr(*this, name, handle(reinterpret_cast<PyObject *>(&PyProperty_Type))(get, set));
  }
};
template <typename T> class enum_ : public class_<T> {
public:
  template <typename... Extra> enum_(handle scope, const char *name, const Extra &...extras) : class_<T>(scope, name, extras...), _scope(scope) {
    using U = std::underlying_type_t<T>;
    auto names = std::make_shared<std::map<U, std::string>>();
    _names = names;
    std::string type = name;
    this->def("__int__", [](const T &v) { return static_cast<U>(v); });
    this->def("__index__", [](const T &v) { return static_cast<U>(v); });
    this->def("__hash__", [](const T &v) { return static_cast<long long>(static_cast<U>(v)); });
    this->def("__eq__", [](const T &v, const handle &o) { return pybind11::isinstance<T>(o) && o.cast<T>() == v; });
    this->def("__ne__", [](const T &v, const handle &o) { return !(pybind11::isinstance<T>(o) && o.cast<T>() == v); });
    this->def("__repr__", [names, type](const T &v) { auto it = names->find(static_cast<U>(v)); return "<" + type + "." + (it == names->end() ? "???" : it->second) + ": " + std::to_string(static_cast<long long>(static_cast<U>(v))) + ">"; });
    this->def_property_readonly("name", [names](const T &v) { auto it = names->find(static_cast<U>(v)); return it == names->end() ? std::string("???") : it->second; });
    this->def_property_readonly("value", [](const T &v) { return static_cast<U>(v); });
  }
  enum_ &value(const char *name, T v, const char * = nullptr) {
    using U = std::underlying_type_t<T>;
    setattr(*this, name, pybind11::cast(v));
    (*_names)[static_cast<U>(v)] = name;
    _all.emplace_back(name, v);
    return *this;
  }
  enum_ &export_values() {
    for (const auto &[n, v] : _all) setattr(_scope, n.c_str(), pybind11::cast(v));
    return *this;
  }

private:
  handle _scope;
  std::shared_ptr<std::map<std::underlying_type_t<T>, std::string>> _names;
  std::vector<std::pair<std::string, T>> _all;
};
template <typename E> class exception : public object {
public:
  exception(handle scope, const char *name, handle base) {
    const std::string full = std::string(PyModule_GetName(scope.ptr())) + "." + name;
    m_ptr = PyErr_NewException(full.c_str(), base.ptr(), nullptr);
    if (!m_ptr) throw error_already_set();
    setattr(scope, name, *this);
  }
};
template <typename E> exception<E> &register_exception(handle scope, const char *name, handle base = PyExc_Exception) {
  auto *e = new exception<E>(scope, name, base); // lives as long as the process
  detail::internals().translators.push_back([e](std::exception_ptr p) {
    try {
      std::rethrow_exception(p);
    } catch (const E &x) {
      PyErr_SetString(e->ptr(), x.what());
      return true;
    } catch (...) {
    }
    return false;
  });
  return *e;
}
} // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                        \
  static void pybind11_init_##name(::pybind11::module_ &);                     \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {\
    static PyModuleDef def{PyModuleDef_HEAD_INIT, #name, nullptr, -1,          \
                           nullptr, nullptr, nullptr, nullptr, nullptr};       \
    PyObject *m = PyModule_Create(&def);                                       \
    if (!m) return nullptr;                                                    \
    try {                                                                      \
      ::pybind11::module_ module(::pybind11::handle(m),                        \
                                 ::pybind11::borrowed_t{});                    \
      pybind11_init_##name(module);                                            \
    } catch (::pybind11::error_already_set & e) {                              \
      e.restore();                                                             \
      return nullptr;                                                          \
    } catch (const std::exception &e) {                                        \
      PyErr_SetString(PyExc_ImportError, e.what());                            \
      return nullptr;                                                          \
    }                                                                          \
    return m;                                                                  \
  }                                                                            \
  void pybind11_init_##name(::pybind11::module_ &variable)
