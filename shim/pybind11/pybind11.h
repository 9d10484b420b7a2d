// A stand-in for pybind11, which is not installed here: as much of its
// documented behaviour as scipp's lib/python uses, on CPython's and NumPy's
// C-APIs. lib/python is compiled against it as it is.
#pragma once
#include <Python.h>

#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace pybind11 {

using ssize_t = Py_ssize_t;

enum class return_value_policy : uint8_t {
  automatic,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

class handle;
class object;
class str;
class accessor;
class iterator;
class dict;
template <class T> T cast_from(handle src);
template <class T>
object cast(T &&value, return_value_policy policy =
                           return_value_policy::automatic_reference,
            handle parent = {});

namespace detail {
struct kwargs_proxy {
  PyObject *ptr;
};
} // namespace detail

// ---------------------------------------------------------------- exceptions

class error_already_set : public std::exception {
public:
  error_already_set() {
    auto *exc = PyErr_GetRaisedException();
    m_exc = std::shared_ptr<PyObject>(exc, [](PyObject *p) {
      const auto gil = PyGILState_Ensure();
      Py_XDECREF(p);
      PyGILState_Release(gil);
    });
    if (exc) {
      if (PyObject *s = PyObject_Str(exc)) {
        const char *c = PyUnicode_AsUTF8(s);
        m_what = std::string(Py_TYPE(exc)->tp_name) + ": " + (c ? c : "");
        Py_DECREF(s);
      }
      PyErr_Clear();
    }
  }
  const char *what() const noexcept override { return m_what.c_str(); }
  void restore() {
    Py_XINCREF(m_exc.get());
    PyErr_SetRaisedException(m_exc.get());
  }
  bool matches(PyObject *type) const {
    return m_exc && PyErr_GivenExceptionMatches(m_exc.get(), type);
  }

private:
  std::shared_ptr<PyObject> m_exc;
  std::string m_what;
};

#define SHIM_EXCEPTION(name)                                                   \
  struct name : std::runtime_error {                                           \
    using std::runtime_error::runtime_error;                                   \
  };
SHIM_EXCEPTION(builtin_exception)
struct cast_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
struct reference_cast_error : cast_error {
  reference_cast_error() : cast_error("reference cast") {}
};
struct type_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
struct value_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
struct index_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
struct key_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
struct stop_iteration : builtin_exception {
  using builtin_exception::builtin_exception;
};
#undef SHIM_EXCEPTION

class gil_scoped_acquire {
public:
  gil_scoped_acquire() : m_state(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(m_state); }
  gil_scoped_acquire(const gil_scoped_acquire &) = delete;

private:
  PyGILState_STATE m_state;
};
class gil_scoped_release {
public:
  gil_scoped_release() : m_state(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(m_state); }
  gil_scoped_release(const gil_scoped_release &) = delete;

private:
  PyThreadState *m_state;
};

// ------------------------------------------------------------------- objects

/// What handles and accessors have in common.
template <class D> class object_api {
  PyObject *p() const { return static_cast<const D *>(this)->ptr(); }

public:
  accessor attr(const char *name) const;
  accessor doc() const;
  accessor operator[](const char *key) const;
  accessor operator[](const std::string &key) const;
  accessor operator[](handle key) const;
  accessor operator[](size_t index) const;
  accessor operator[](int index) const;
  accessor operator[](long index) const;
  bool is_none() const { return p() == Py_None; }
  handle get_type() const;
  bool is(handle other) const;
  bool equal(handle other) const;
  template <class T> bool contains(T &&item) const;
  template <class... Args> object operator()(Args &&...args) const;
  iterator begin() const;
  iterator end() const;
};

class handle : public object_api<handle> {
public:
  handle() = default;
  handle(PyObject *ptr) : m_ptr(ptr) {}
  handle(std::nullptr_t) {}
  PyObject *ptr() const { return m_ptr; }
  const handle &inc_ref() const {
    Py_XINCREF(m_ptr);
    return *this;
  }
  const handle &dec_ref() const {
    Py_XDECREF(m_ptr);
    return *this;
  }
  explicit operator bool() const { return m_ptr != nullptr; }
  template <class T> decltype(auto) cast() const { return cast_from<T>(*this); }

protected:
  PyObject *m_ptr = nullptr;
};

class object : public handle {
public:
  struct stolen_t {};
  struct borrowed_t {};
  object() = default;
  object(handle h, stolen_t) : handle(h) {}
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(const object &o) : handle(o) { inc_ref(); }
  object(object &&o) noexcept : handle(o) { o.m_ptr = nullptr; }
  object &operator=(const object &o) {
    o.inc_ref();
    handle old(m_ptr);
    m_ptr = o.m_ptr;
    old.dec_ref();
    return *this;
  }
  object &operator=(object &&o) noexcept {
    if (this != &o) {
      handle old(m_ptr);
      m_ptr = o.m_ptr;
      o.m_ptr = nullptr;
      old.dec_ref();
    }
    return *this;
  }
  ~object() { dec_ref(); }
  object(const accessor &a);
  handle release() {
    handle h(m_ptr);
    m_ptr = nullptr;
    return h;
  }
  template <class T> decltype(auto) cast() const & {
    return cast_from<T>(*this);
  }
  template <class T> T cast() && { return cast_from<T>(*this); }
};

template <class D> handle object_api<D>::get_type() const {
  return reinterpret_cast<PyObject *>(Py_TYPE(p()));
}
template <class T> T reinterpret_steal(handle h) {
  return {h, object::stolen_t{}};
}
template <class T> T reinterpret_borrow(handle h) {
  return {h, object::borrowed_t{}};
}
namespace detail {
inline object steal(PyObject *p) {
  if (!p)
    throw error_already_set();
  return {handle(p), object::stolen_t{}};
}
} // namespace detail

class accessor : public object_api<accessor> {
public:
  accessor(handle obj, object key, bool item)
      : m_obj(obj, object::borrowed_t{}), m_key(std::move(key)), m_item(item) {}
  PyObject *ptr() const {
    if (!m_cache)
      m_cache = detail::steal(m_item ? PyObject_GetItem(m_obj.ptr(), m_key.ptr())
                                     : PyObject_GetAttr(m_obj.ptr(),
                                                        m_key.ptr()));
    return m_cache.ptr();
  }
  template <class T> void operator=(T &&value) &&;
  template <class T> void operator=(T &&value) &;
  void operator=(const accessor &a) && { set(object(a)); }
  template <class T> decltype(auto) cast() const {
    ptr();
    return cast_from<T>(m_cache);
  }
  operator object() const {
    ptr();
    return m_cache;
  }

private:
  void set(const object &value) const {
    if (m_item && PyTuple_CheckExact(m_obj.ptr())) {
      const auto i = PyLong_AsSsize_t(m_key.ptr());
      auto *old = PyTuple_GetItem(m_obj.ptr(), i);
      PyTuple_SET_ITEM(m_obj.ptr(), i, object(value).release().ptr());
      Py_XDECREF(old);
      return;
    }
    const auto rc =
        m_item ? PyObject_SetItem(m_obj.ptr(), m_key.ptr(), value.ptr())
               : PyObject_SetAttr(m_obj.ptr(), m_key.ptr(), value.ptr());
    if (rc != 0)
      throw error_already_set();
  }
  object m_obj;
  object m_key;
  bool m_item;
  mutable object m_cache;
};
inline object::object(const accessor &a) : handle(a.ptr()) { inc_ref(); }

#define SHIM_OBJECT(Name, Base, check)                                         \
public:                                                                        \
  Name(handle h, stolen_t) : Base(h, stolen_t{}) {}                            \
  Name(handle h, borrowed_t) : Base(h, borrowed_t{}) {}                        \
  Name(const Name &) = default;                                                \
  Name(Name &&) = default;                                                     \
  Name &operator=(const Name &) = default;                                     \
  Name &operator=(Name &&) = default;                                          \
  static bool check_(handle h) { return h.ptr() && (check(h.ptr())); }

#define SHIM_CONVERT(Name, Base, convert)                                      \
  Name(const object &o)                                                        \
      : Base(check_(o) ? (o.inc_ref(), o.ptr())                                \
                       : detail::steal(convert(o.ptr())).release(),            \
             stolen_t{}) {}                                                    \
  Name(object &&o) : Name(static_cast<const object &>(o)) {}                   \
  Name(const accessor &a) : Name(object(a)) {}

class none : public object {
  static bool is_none_(PyObject *p) { return p == Py_None; }
  SHIM_OBJECT(none, object, is_none_)
  none() : object(Py_None, borrowed_t{}) {}
};
class ellipsis : public object {
  static bool is_ellipsis_(PyObject *p) { return p == Py_Ellipsis; }
  SHIM_OBJECT(ellipsis, object, is_ellipsis_)
  ellipsis() : object(Py_Ellipsis, borrowed_t{}) {}
};
class str : public object {
  SHIM_OBJECT(str, object, PyUnicode_Check)
  SHIM_CONVERT(str, object, PyObject_Str)
  str() : str("") {}
  str(const char *s)
      : object(detail::steal(PyUnicode_FromString(s)).release(), stolen_t{}) {}
  str(const std::string &s)
      : object(detail::steal(PyUnicode_FromStringAndSize(s.data(), s.size()))
                   .release(),
               stolen_t{}) {}
  explicit str(handle h)
      : object(detail::steal(PyObject_Str(h.ptr())).release(), stolen_t{}) {}
  operator std::string() const {
    ssize_t n;
    const char *c = PyUnicode_AsUTF8AndSize(ptr(), &n);
    if (!c)
      throw error_already_set();
    return {c, static_cast<size_t>(n)};
  }
};
inline std::ostream &operator<<(std::ostream &os, handle h) {
  return os << static_cast<std::string>(str(h));
}
class bool_ : public object {
  static PyObject *make(PyObject *p) {
    const auto r = PyObject_IsTrue(p);
    return r == -1 ? nullptr : PyBool_FromLong(r);
  }
  SHIM_OBJECT(bool_, object, PyBool_Check)
  SHIM_CONVERT(bool_, object, make)
  bool_(bool b) : object(b ? Py_True : Py_False, borrowed_t{}) {}
  operator bool() const { return ptr() == Py_True; }
};
class int_ : public object {
  SHIM_OBJECT(int_, object, PyLong_Check)
  SHIM_CONVERT(int_, object, PyNumber_Long)
  int_(long v) : object(PyLong_FromLong(v), stolen_t{}) {}
};
class float_ : public object {
  SHIM_OBJECT(float_, object, PyFloat_Check)
  SHIM_CONVERT(float_, object, PyNumber_Float)
};
class type : public object {
  SHIM_OBJECT(type, object, PyType_Check)
};
class slice : public object {
  SHIM_OBJECT(slice, object, PySlice_Check)
  bool compute(size_t length, size_t *start, size_t *stop, size_t *step,
               size_t *slicelength) const {
    return PySlice_GetIndicesEx(
               ptr(), static_cast<ssize_t>(length),
               reinterpret_cast<ssize_t *>(start),
               reinterpret_cast<ssize_t *>(stop),
               reinterpret_cast<ssize_t *>(step),
               reinterpret_cast<ssize_t *>(slicelength)) == 0;
  }
};
class capsule : public object {
  SHIM_OBJECT(capsule, object, PyCapsule_CheckExact)
};
class tuple : public object {
  SHIM_OBJECT(tuple, object, PyTuple_Check)
  SHIM_CONVERT(tuple, object, PySequence_Tuple)
  explicit tuple(ssize_t n = 0)
      : object(detail::steal(PyTuple_New(n)).release(), stolen_t{}) {
    for (ssize_t i = 0; i < n; ++i) {
      Py_INCREF(Py_None);
      PyTuple_SET_ITEM(ptr(), i, Py_None);
    }
  }
  size_t size() const { return PyTuple_Size(ptr()); }
};
class list : public object {
  SHIM_OBJECT(list, object, PyList_Check)
  SHIM_CONVERT(list, object, PySequence_List)
  list() : object(detail::steal(PyList_New(0)).release(), stolen_t{}) {}
  size_t size() const { return PyList_Size(ptr()); }
  template <class T> void append(T &&v) {
    if (PyList_Append(ptr(), pybind11::cast(std::forward<T>(v)).ptr()) != 0)
      throw error_already_set();
  }
};
class dict_iterator {
public:
  dict_iterator() = default;
  dict_iterator(handle d, ssize_t pos) : m_dict(d), m_pos(pos) { ++*this; }
  dict_iterator &operator++() {
    if (!PyDict_Next(m_dict.ptr(), &m_pos, &m_key, &m_value))
      m_pos = -1;
    return *this;
  }
  std::pair<handle, handle> operator*() const { return {m_key, m_value}; }
  bool operator!=(const dict_iterator &o) const { return m_pos != o.m_pos; }
  bool operator==(const dict_iterator &o) const { return m_pos == o.m_pos; }

private:
  handle m_dict;
  ssize_t m_pos = -1;
  PyObject *m_key = nullptr, *m_value = nullptr;
};
class dict : public object {
  static PyObject *make(PyObject *p) {
    return PyObject_CallOneArg(reinterpret_cast<PyObject *>(&PyDict_Type), p);
  }
  SHIM_OBJECT(dict, object, PyDict_Check)
  SHIM_CONVERT(dict, object, make)
  dict() : object(detail::steal(PyDict_New()).release(), stolen_t{}) {}
  size_t size() const { return PyDict_Size(ptr()); }
  bool empty() const { return size() == 0; }
  dict_iterator begin() const { return {*this, 0}; }
  dict_iterator end() const { return {}; }
};
class kwargs : public dict {
  SHIM_OBJECT(kwargs, dict, PyDict_Check)
  kwargs() = default;
  struct unpacked {
    PyObject *ptr;
    detail::kwargs_proxy operator*() const { return {ptr}; }
  };
  unpacked operator*() const { return {ptr()}; }
};
class args : public tuple {
  SHIM_OBJECT(args, tuple, PyTuple_Check)
};
class buffer : public object {
  SHIM_OBJECT(buffer, object, PyObject_CheckBuffer)
  buffer(const object &o) : object(o) {
    if (!check_(o))
      throw type_error(std::string("Object of type '") +
                       Py_TYPE(o.ptr())->tp_name +
                       "' is not an instance of 'buffer'");
  }
};
class iterator : public object {
public:
  using iterator_category = std::input_iterator_tag;
  using difference_type = ssize_t;
  using value_type = handle;
  using reference = handle;
  using pointer = const handle *;
  SHIM_OBJECT(iterator, object, PyIter_Check)
  iterator() = default;
  iterator &operator++() {
    advance();
    return *this;
  }
  iterator operator++(int) {
    auto old = *this;
    advance();
    return old;
  }
  reference operator*() const {
    if (ptr() && !m_value)
      const_cast<iterator *>(this)->advance();
    return m_value;
  }
  pointer operator->() const {
    operator*();
    return &m_value;
  }
  iterator end() const { return {}; }
  friend bool operator==(const iterator &a, const iterator &b) {
    return a->ptr() == b->ptr();
  }
  friend bool operator!=(const iterator &a, const iterator &b) {
    return a->ptr() != b->ptr();
  }

private:
  void advance() {
    auto *next = PyIter_Next(ptr());
    if (!next && PyErr_Occurred())
      throw error_already_set();
    m_value = object(next, stolen_t{});
  }
  object m_value;
};

namespace detail {
inline object key_of(const char *s) { return str(s); }
} // namespace detail

template <class D> accessor object_api<D>::attr(const char *name) const {
  return {p(), str(name), false};
}
template <class D> accessor object_api<D>::doc() const {
  return attr("__doc__");
}
template <class D> accessor object_api<D>::operator[](const char *key) const {
  return {p(), str(key), true};
}
template <class D>
accessor object_api<D>::operator[](const std::string &key) const {
  return {p(), str(key), true};
}
template <class D> accessor object_api<D>::operator[](handle key) const {
  return {p(), object(key, object::borrowed_t{}), true};
}
template <class D> accessor object_api<D>::operator[](size_t i) const {
  return {p(), int_(static_cast<long>(i)), true};
}
template <class D> accessor object_api<D>::operator[](int i) const {
  return {p(), int_(static_cast<long>(i)), true};
}
template <class D> accessor object_api<D>::operator[](long i) const {
  return {p(), int_(i), true};
}
template <class D> bool object_api<D>::is(handle other) const {
  return p() == other.ptr();
}
template <class D> bool object_api<D>::equal(handle other) const {
  const int r = PyObject_RichCompareBool(p(), other.ptr(), Py_EQ);
  // pybind11 compares the objects, not their identities first
  const auto res =
      detail::steal(PyObject_RichCompare(p(), other.ptr(), Py_EQ));
  const int truth = PyObject_IsTrue(res.ptr());
  if (r == -1 || truth == -1)
    throw error_already_set();
  return truth == 1;
}
template <class D>
template <class T>
bool object_api<D>::contains(T &&item) const {
  const int r =
      PySequence_Contains(p(), pybind11::cast(std::forward<T>(item)).ptr());
  if (r == -1)
    throw error_already_set();
  return r == 1;
}
template <class D> iterator object_api<D>::begin() const {
  return {detail::steal(PyObject_GetIter(p())).release(), object::stolen_t{}};
}
template <class D> iterator object_api<D>::end() const { return {}; }

template <class T> void accessor::operator=(T &&value) && {
  set(pybind11::cast(std::forward<T>(value)));
}
template <class T> void accessor::operator=(T &&value) & {
  set(pybind11::cast(std::forward<T>(value)));
}

inline iterator iter(handle h) { return h.begin(); }
inline object getattr(handle h, const char *name) {
  return detail::steal(PyObject_GetAttrString(h.ptr(), name));
}
inline bool hasattr(handle h, const char *name) {
  return PyObject_HasAttrString(h.ptr(), name) == 1;
}

namespace detail {
/// pybind11's way of calling with `**kwargs` as the only keyword arguments.
inline void collect(std::vector<object> &args, object &, object &&v) {
  args.emplace_back(std::move(v));
}
template <class T>
void add_argument(std::vector<object> &args, object &kw, T &&v) {
  if constexpr (std::is_same_v<std::decay_t<T>, kwargs_proxy>)
    kw = object(v.ptr, object::borrowed_t{});
  else
    args.emplace_back(pybind11::cast(std::forward<T>(v)));
}
inline object call(PyObject *f, const std::vector<object> &args,
                   const object &kw) {
  auto tup = steal(PyTuple_New(args.size()));
  for (size_t i = 0; i < args.size(); ++i) {
    args[i].inc_ref();
    PyTuple_SET_ITEM(tup.ptr(), i, args[i].ptr());
  }
  return steal(PyObject_Call(f, tup.ptr(), kw.ptr()));
}
} // namespace detail
template <class D>
template <class... Args>
object object_api<D>::operator()(Args &&...a) const {
  std::vector<object> args;
  object kw;
  (detail::add_argument(args, kw, std::forward<Args>(a)), ...);
  return detail::call(p(), args, kw);
}

// --------------------------------------------------------- classes, instances

namespace detail {

struct type_info {
  PyTypeObject *type = nullptr;
  std::string name;
  void (*destroy)(void *) = nullptr;
  std::vector<object (*)(handle)> implicit;
};

struct instance {
  PyObject_HEAD;
  void *value;
  type_info *info;
  bool owned;
  PyObject *dict;
  PyObject *weakrefs;
  std::vector<object> *patients;
};

struct internals {
  std::unordered_map<std::type_index, type_info *> types;
  std::unordered_multimap<const void *, instance *> instances;
  std::vector<void (*)(std::exception_ptr)> translators;
  object static_property;
  object metaclass;
};
internals &get_internals();

inline type_info *find_type(const std::type_info &t) {
  const auto &types = get_internals().types;
  const auto it = types.find(t);
  return it == types.end() ? nullptr : it->second;
}

inline void register_instance(instance *self) {
  get_internals().instances.emplace(self->value, self);
}
inline void deregister_instance(instance *self) {
  auto &all = get_internals().instances;
  auto [a, b] = all.equal_range(self->value);
  for (; a != b; ++a)
    if (a->second == self) {
      all.erase(a);
      return;
    }
}

inline PyObject *instance_new(PyTypeObject *type, PyObject *, PyObject *) {
  auto *self = reinterpret_cast<instance *>(type->tp_alloc(type, 0));
  if (!self)
    return nullptr;
  self->value = nullptr;
  self->info = nullptr;
  self->owned = false;
  self->dict = nullptr;
  self->weakrefs = nullptr;
  self->patients = nullptr;
  return reinterpret_cast<PyObject *>(self);
}
inline int instance_init(PyObject *self, PyObject *, PyObject *) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!",
               Py_TYPE(self)->tp_name);
  return -1;
}
inline void instance_dealloc(PyObject *obj) {
  auto *self = reinterpret_cast<instance *>(obj);
  auto *type = Py_TYPE(obj);
  if (PyType_IS_GC(type))
    PyObject_GC_UnTrack(obj);
  if (self->weakrefs)
    PyObject_ClearWeakRefs(obj);
  if (self->value) {
    deregister_instance(self);
    if (self->owned)
      self->info->destroy(self->value);
  }
  Py_CLEAR(self->dict);
  delete std::exchange(self->patients, nullptr);
  type->tp_free(obj);
  Py_DECREF(type);
}
inline int instance_traverse(PyObject *obj, visitproc visit, void *arg) {
  auto *self = reinterpret_cast<instance *>(obj);
  Py_VISIT(self->dict);
  Py_VISIT(Py_TYPE(obj));
  return 0;
}
inline int instance_clear(PyObject *obj) {
  Py_CLEAR(reinterpret_cast<instance *>(obj)->dict);
  return 0;
}

inline void keep_alive_impl(handle nurse, handle patient) {
  if (nurse.is_none() || patient.is_none())
    return;
  auto *self = reinterpret_cast<instance *>(nurse.ptr());
  if (Py_TYPE(nurse.ptr())->tp_dealloc != &instance_dealloc)
    throw std::runtime_error("keep_alive of a foreign object");
  if (!self->patients)
    self->patients = new std::vector<object>;
  self->patients->emplace_back(patient, object::borrowed_t{});
}

template <class T> void destroy_as(void *p) { delete static_cast<T *>(p); }

inline object wrap(type_info *info, void *value, bool owned) {
  auto *self = reinterpret_cast<instance *>(
      instance_new(info->type, nullptr, nullptr));
  if (!self)
    throw error_already_set();
  self->value = value;
  self->info = info;
  self->owned = owned;
  register_instance(self);
  return {reinterpret_cast<PyObject *>(self), object::stolen_t{}};
}

template <class T> using intrinsic_t = std::remove_cv_t<std::remove_reference_t<T>>;

template <class T> std::string type_name() {
  if (auto *info = find_type(typeid(T)))
    return info->name;
  return typeid(T).name();
}

// ------------------------------------------------------------------- casters

/// Values of classes that were bound with class_.
template <class T, class = void> struct caster {
  T *value = nullptr;
  object temporary;

  bool load(handle src, bool convert) {
    auto *info = find_type(typeid(T));
    if (!info || !src)
      return false;
    if (PyObject_TypeCheck(src.ptr(), info->type)) {
      value =
          static_cast<T *>(reinterpret_cast<instance *>(src.ptr())->value);
      if (!value)
        throw type_error(info->name + ".__init__() must be called when "
                                      "overriding __init__");
      return true;
    }
    if (convert)
      for (const auto &f : info->implicit) {
        auto tmp = f(src);
        if (tmp && load(tmp, false)) {
          temporary = std::move(tmp);
          return true;
        }
      }
    return false;
  }
  T &ref() { return *value; }
  T take() {
    if constexpr (std::is_copy_constructible_v<T>)
      return *value;
    else
      throw cast_error("not copyable");
  }

  template <class U>
  static object cast(U &&v, return_value_policy policy, handle parent) {
    auto *info = find_type(typeid(T));
    if (!info)
      throw type_error("Unregistered type : " + std::string(typeid(T).name()));
    constexpr bool lvalue = std::is_lvalue_reference_v<U>;
    auto *ptr = const_cast<T *>(std::addressof(v));
    if constexpr (lvalue) {
      const auto [a, b] = get_internals().instances.equal_range(ptr);
      for (auto it = a; it != b; ++it)
        if (it->second->info == info)
          return {reinterpret_cast<PyObject *>(it->second),
                  object::borrowed_t{}};
      if (policy == return_value_policy::reference)
        return wrap(info, ptr, false);
      if (policy == return_value_policy::reference_internal) {
        auto res = wrap(info, ptr, false);
        keep_alive_impl(res, parent);
        return res;
      }
    }
    if constexpr (!lvalue || !std::is_const_v<std::remove_reference_t<U>>)
      if (!lvalue || policy == return_value_policy::move) {
        if constexpr (std::is_move_constructible_v<T>)
          return wrap(info, new T(std::move(*ptr)), true);
      }
    if constexpr (std::is_copy_constructible_v<T>)
      return wrap(info, new T(*ptr), true);
    else
      throw cast_error("return value cannot be copied");
  }
};

template <class T> struct is_typed_array : std::false_type {};

template <class T> struct value_caster {
  T value{};
  T &ref() { return value; }
  T take() { return std::move(value); }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_base_of_v<handle, T> &&
                                  !is_typed_array<T>::value>> {
  std::optional<T> value;
  bool load(handle src, bool) {
    if (!src)
      return false;
    if constexpr (std::is_same_v<T, handle>) {
      value = src;
    } else if constexpr (std::is_same_v<T, object>) {
      value = object(src, object::borrowed_t{});
    } else {
      if (!T::check_(src))
        return false;
      value.emplace(src, object::borrowed_t{});
    }
    return true;
  }
  T &ref() { return *value; }
  T take() { return *value; }
  template <class U>
  static object cast(U &&v, return_value_policy, handle) {
    return {v, object::borrowed_t{}};
  }
};
template <> struct caster<accessor> {
  template <class U>
  static object cast(U &&v, return_value_policy, handle) {
    return object(v);
  }
};

template <> struct caster<bool> : value_caster<bool> {
  bool load(handle src, bool convert) {
    if (!src)
      return false;
    if (src.ptr() == Py_True || src.ptr() == Py_False) {
      value = src.ptr() == Py_True;
      return true;
    }
    const std::string name = Py_TYPE(src.ptr())->tp_name;
    if (!convert && name != "numpy.bool" && name != "numpy.bool_")
      return false;
    if (src.is_none()) {
      value = false;
      return true;
    }
    auto *nb = Py_TYPE(src.ptr())->tp_as_number;
    const int r = nb && nb->nb_bool ? nb->nb_bool(src.ptr()) : -1;
    if (r != 0 && r != 1) {
      PyErr_Clear();
      return false;
    }
    value = r == 1;
    return true;
  }
  static object cast(bool b, return_value_policy, handle) { return bool_(b); }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>>
    : value_caster<T> {
  bool load(handle src, bool convert) {
    if (!src || (!convert && !PyFloat_Check(src.ptr())))
      return false;
    const double v = PyFloat_AsDouble(src.ptr());
    if (v == -1.0 && PyErr_Occurred()) {
      PyErr_Clear();
      if (convert && PyNumber_Check(src.ptr())) {
        object tmp(PyNumber_Float(src.ptr()), object::stolen_t{});
        PyErr_Clear();
        return load(tmp, false);
      }
      return false;
    }
    this->value = static_cast<T>(v);
    return true;
  }
  static object cast(T v, return_value_policy, handle) {
    return steal(PyFloat_FromDouble(static_cast<double>(v)));
  }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> &&
                                  !std::is_same_v<T, bool> &&
                                  !std::is_same_v<T, char>>> : value_caster<T> {
  bool load(handle src, bool convert) {
    if (!src || PyFloat_Check(src.ptr()))
      return false;
    if (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr()))
      return false;
    object index;
    handle use = src;
    if (!PyLong_Check(src.ptr())) {
      index = object(PyNumber_Index(src.ptr()), object::stolen_t{});
      if (!index) {
        PyErr_Clear();
        if (!convert)
          return false;
      } else {
        use = index;
      }
    }
    const auto fail = [&] {
      const bool type_err = PyErr_Occurred();
      PyErr_Clear();
      if (type_err && convert && PyNumber_Check(src.ptr()) &&
          !PyLong_Check(use.ptr())) {
        object tmp(PyNumber_Long(src.ptr()), object::stolen_t{});
        PyErr_Clear();
        return tmp && load(tmp, false);
      }
      return false;
    };
    if constexpr (std::is_signed_v<T>) {
      const long long v = PyLong_AsLongLong(use.ptr());
      if (v == -1 && PyErr_Occurred())
        return fail();
      if (v != static_cast<long long>(static_cast<T>(v)))
        return false;
      this->value = static_cast<T>(v);
    } else {
      const unsigned long long v = PyLong_AsUnsignedLongLong(use.ptr());
      if (v == static_cast<unsigned long long>(-1) && PyErr_Occurred())
        return fail();
      if (v != static_cast<unsigned long long>(static_cast<T>(v)))
        return false;
      this->value = static_cast<T>(v);
    }
    return true;
  }
  static object cast(T v, return_value_policy, handle) {
    if constexpr (std::is_signed_v<T>)
      return steal(PyLong_FromLongLong(v));
    else
      return steal(PyLong_FromUnsignedLongLong(v));
  }
};

template <> struct caster<std::string> : value_caster<std::string> {
  bool load(handle src, bool) {
    if (!src)
      return false;
    if (PyBytes_Check(src.ptr())) {
      value.assign(PyBytes_AsString(src.ptr()), PyBytes_Size(src.ptr()));
      return true;
    }
    if (!PyUnicode_Check(src.ptr()))
      return false;
    ssize_t n;
    const char *c = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
    if (!c) {
      PyErr_Clear();
      return false;
    }
    value.assign(c, n);
    return true;
  }
  static object cast(const std::string &s, return_value_policy, handle) {
    return str(s);
  }
};
template <> struct caster<char> : value_caster<char> {
  bool load(handle src, bool) {
    caster<std::string> s;
    if (!s.load(src, true))
      return false;
    if (s.value.size() != 1)
      throw value_error("Expected a character, but multi-character string "
                        "found");
    value = s.value[0];
    return true;
  }
  static object cast(char c, return_value_policy, handle) {
    return str(std::string(1, c));
  }
};
template <> struct caster<const char *> {
  static object cast(const char *s, return_value_policy, handle) {
    return str(s);
  }
};
template <> struct caster<std::string_view> : caster<std::string> {
  std::string_view take() { return value; }
  std::string_view &ref() { return m_view = value; }
  std::string_view m_view;
  static object cast(std::string_view s, return_value_policy, handle) {
    return str(std::string(s));
  }
};
template <> struct caster<std::nullopt_t> {
  static object cast(std::nullopt_t, return_value_policy, handle) {
    return none();
  }
};

template <class T> struct caster<std::optional<T>> : value_caster<std::optional<T>> {
  bool load(handle src, bool convert) {
    if (!src)
      return false;
    if (src.is_none())
      return true;
    caster<T> inner;
    if (!inner.load(src, convert))
      return false;
    this->value.emplace(inner.take());
    return true;
  }
  template <class U>
  static object cast(U &&v, return_value_policy policy, handle parent) {
    if (!v)
      return none();
    return caster<intrinsic_t<T>>::cast(*std::forward<U>(v), policy, parent);
  }
};

template <class T, class Alloc>
struct caster<std::vector<T, Alloc>> : value_caster<std::vector<T, Alloc>> {
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()) ||
        PyBytes_Check(src.ptr()))
      return false;
    const auto n = PySequence_Size(src.ptr());
    if (n < 0)
      throw error_already_set();
    for (ssize_t i = 0; i < n; ++i) {
      auto item = steal(PySequence_GetItem(src.ptr(), i));
      caster<intrinsic_t<T>> inner;
      if (!inner.load(item, convert))
        return false;
      this->value.push_back(inner.take());
    }
    return true;
  }
  template <class U>
  static object cast(U &&v, return_value_policy policy, handle parent) {
    list out;
    for (auto &&x : v)
      out.append(pybind11::cast(x, policy, parent));
    return out;
  }
};

template <class K, class V>
struct caster<std::map<K, V>> : value_caster<std::map<K, V>> {
  bool load(handle src, bool convert) {
    if (!src || !PyDict_Check(src.ptr()))
      return false;
    for (const auto &[k, v] : reinterpret_borrow<dict>(src)) {
      caster<K> kc;
      caster<V> vc;
      if (!kc.load(k, convert) || !vc.load(v, convert))
        return false;
      this->value.emplace(kc.take(), vc.take());
    }
    return true;
  }
  template <class U>
  static object cast(U &&v, return_value_policy policy, handle parent) {
    dict out;
    for (auto &&[k, x] : v)
      out[pybind11::cast(k)] = pybind11::cast(x, policy, parent);
    return out;
  }
};

template <class Tuple, class... Ts> struct tuple_caster {
  std::tuple<caster<intrinsic_t<Ts>>...> casters;
  bool load(handle src, bool convert) {
    return load_impl(src, convert, std::index_sequence_for<Ts...>{});
  }
  Tuple take() {
    return std::apply([](auto &...c) { return Tuple{c.take()...}; }, casters);
  }
  template <class U>
  static object cast(U &&v, return_value_policy policy, handle parent) {
    std::vector<object> items;
    std::apply(
        [&](auto &&...x) {
          (items.push_back(
               pybind11::cast(std::forward<decltype(x)>(x), policy, parent)),
           ...);
        },
        std::forward<U>(v));
    tuple out(items.size());
    for (size_t i = 0; i < items.size(); ++i)
      out[i] = items[i];
    return out;
  }

private:
  template <size_t... I>
  bool load_impl(handle src, bool convert, std::index_sequence<I...>) {
    if (!src || !PySequence_Check(src.ptr()))
      return false;
    const auto n = PySequence_Size(src.ptr());
    if (n == -1)
      PyErr_Clear();
    if (n != static_cast<ssize_t>(sizeof...(I)))
      return false;
    std::array<object, sizeof...(I)> items{
        steal(PySequence_GetItem(src.ptr(), I))...};
    return (std::get<I>(casters).load(items[I], convert) && ...);
  }
};
template <class... Ts>
struct caster<std::tuple<Ts...>> : tuple_caster<std::tuple<Ts...>, Ts...> {};
template <class A, class B>
struct caster<std::pair<A, B>> : tuple_caster<std::pair<A, B>, A, B> {};

template <class... Ts> struct caster<std::variant<Ts...>> {
  std::optional<std::variant<Ts...>> value;
  bool load(handle src, bool convert) {
    if (convert && (try_load<Ts>(src, false) || ...))
      return true;
    return (try_load<Ts>(src, convert) || ...);
  }
  std::variant<Ts...> &ref() { return *value; }
  std::variant<Ts...> take() { return std::move(*value); }
  template <class U>
  static object cast(U &&v, return_value_policy policy, handle parent) {
    return std::visit(
        [&](auto &&x) {
          return pybind11::cast(std::forward<decltype(x)>(x), policy, parent);
        },
        std::forward<U>(v));
  }

private:
  template <class T> bool try_load(handle src, bool convert) {
    caster<T> inner;
    if (!inner.load(src, convert))
      return false;
    value.emplace(inner.take());
    return true;
  }
};

template <class T, class = void> struct has_ref : std::false_type {};
template <class T>
struct has_ref<T, std::void_t<decltype(std::declval<T &>().ref())>>
    : std::true_type {};

/// The argument of declared type A out of its caster.
template <class A, class C> decltype(auto) argument(C &c) {
  if constexpr (has_ref<C>::value && std::is_lvalue_reference_v<A>)
    return (c.ref());
  else
    return c.take();
}

} // namespace detail

template <class T> T cast_from(handle src) {
  using I = detail::intrinsic_t<T>;
  if constexpr (std::is_void_v<T>) {
    return;
  } else if constexpr (std::is_base_of_v<handle, I> &&
                       !std::is_reference_v<T>) {
    // Other than arguments, these are converted.
    const object o(src, object::borrowed_t{});
    if constexpr (std::is_same_v<I, handle>) {
      return src;
    } else if constexpr (std::is_same_v<I, object>) {
      return o;
    } else if constexpr (std::is_constructible_v<I, const object &>) {
      return I(o);
    } else {
      if (!I::check_(src))
        throw type_error(std::string("Object of unexpected type ") +
                         Py_TYPE(src.ptr())->tp_name);
      return I(src, object::borrowed_t{});
    }
  } else {
    detail::caster<I> c;
    if (!c.load(src, true))
      throw cast_error(std::string("Unable to cast Python instance of type ") +
                       Py_TYPE(src.ptr())->tp_name + " to C++ type '" +
                       detail::type_name<I>() + "'");
    if constexpr (std::is_lvalue_reference_v<T>) {
      if (c.temporary)
        throw cast_error("reference to a temporary");
      return c.ref();
    } else {
      return c.take();
    }
  }
}
template <class T>
object cast(T &&value, return_value_policy policy, handle parent) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, char *>) {
    return str(value);
  } else {
    if constexpr (std::is_lvalue_reference_v<T>) {
      if (policy == return_value_policy::automatic ||
          policy == return_value_policy::automatic_reference)
        policy = return_value_policy::copy;
    } else {
      policy = return_value_policy::move;
    }
    return detail::caster<D>::cast(std::forward<T>(value), policy, parent);
  }
}
template <class T> T cast(handle h) { return cast_from<T>(h); }

template <class T> bool isinstance(handle h) {
  if constexpr (std::is_base_of_v<handle, T>) {
    return T::check_(h);
  } else {
    auto *info = detail::find_type(typeid(T));
    return info && PyObject_TypeCheck(h.ptr(), info->type);
  }
}

// -------------------------------------------------------- function attributes

struct arg_v;
struct arg {
  explicit arg(const char *n) : name(n) {}
  template <class T> arg_v operator=(T &&v) const;
  const char *name;
};
struct arg_v : arg {
  template <class T>
  arg_v(const arg &a, T &&v)
      : arg(a), value(pybind11::cast(std::forward<T>(v))) {}
  object value;
};
template <class T> arg_v arg::operator=(T &&v) const {
  return {*this, std::forward<T>(v)};
}
struct kw_only {};
struct pos_only {};
struct is_operator {};
struct dynamic_attr {};
template <class... Guards> struct call_guard {};
template <size_t N, size_t P> struct keep_alive {};
struct options {
  options &disable_function_signatures() { return *this; }
  options &enable_function_signatures() { return *this; }
};

namespace detail {

struct argument_record {
  std::string name;
  object value;
};

struct call_state {
  std::vector<object> args;
  std::vector<bool> convert;
  object kwargs;
  object parent;
};

inline PyObject *const try_next = reinterpret_cast<PyObject *>(1);

struct overload {
  std::function<PyObject *(call_state &)> impl;
  size_t nargs = 0; // declared, without **kwargs
  size_t npos = 0;  // of which may be given by position
  bool has_kwargs = false;
  std::vector<argument_record> args;
  bool is_operator = false;
  bool method = false;
  return_value_policy policy = return_value_policy::automatic;
  std::vector<std::pair<size_t, size_t>> keep_alive;
  std::string doc;
};

struct function_record {
  std::string name;
  std::vector<overload> overloads;
  PyMethodDef def;
  std::string doc;
  PyObject *scope = nullptr;
};

PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kwargs);

/// Adds f to the overloads called name in scope, or starts a new one.
object add_function(const char *name, handle scope, bool method, overload &&o);

struct builder {
  overload o;
  bool kw_only_seen = false;
  void self_argument() {
    if (o.method && o.args.empty())
      o.args.push_back({"self", {}});
  }
  void add(const arg &a) {
    self_argument();
    o.args.push_back({a.name, {}});
  }
  void add(const arg_v &a) {
    self_argument();
    o.args.push_back({a.name, a.value});
  }
  void add(kw_only) {
    self_argument();
    o.npos = o.args.size();
    kw_only_seen = true;
  }
  void add(pos_only) {}
  void add(is_operator) { o.is_operator = true; }
  void add(dynamic_attr) {}
  void add(return_value_policy p) { o.policy = p; }
  void add(const char *doc) { o.doc = doc; }
  void add(const std::string &doc) { o.doc = doc; }
  template <class... G> void add(call_guard<G...>) {}
  template <size_t N, size_t P> void add(keep_alive<N, P>) {
    o.keep_alive.emplace_back(N, P);
  }
};

template <class T> struct guard_of {
  template <class F> static decltype(auto) run(F &&f) { return f(); }
};
template <class G> struct guard_of<call_guard<G>> {
  template <class F> static decltype(auto) run(F &&f) {
    [[maybe_unused]] G guard;
    return f();
  }
};
template <class F> decltype(auto) guarded(F &&f) { return f(); }
template <class E, class... Es, class F> decltype(auto) guarded(F &&f) {
  return guard_of<E>::run([&]() -> decltype(auto) {
    return guarded<Es...>(std::forward<F>(f));
  });
}

template <class F> struct signature;
template <class F> struct functor_signature;
template <class C, class R, class... A>
struct functor_signature<R (C::*)(A...)> {
  using type = R(A...);
};
template <class C, class R, class... A>
struct functor_signature<R (C::*)(A...) const> {
  using type = R(A...);
};
template <class F> struct signature {
  using type = typename functor_signature<decltype(&F::operator())>::type;
};
template <class R, class... A> struct signature<R (*)(A...)> {
  using type = R(A...);
};
template <class R, class... A> struct signature<R (*)(A...) noexcept> {
  using type = R(A...);
};
template <class R, class... A> struct signature<R(A...)> {
  using type = R(A...);
};

template <class... Extra, class F, class R, class... A, size_t... I>
overload make_overload(F &&f, R (*)(A...), bool method,
                       std::index_sequence<I...>, const Extra &...extra) {
  builder b;
  b.o.method = method;
  b.o.has_kwargs = (std::is_same_v<intrinsic_t<A>, kwargs> || ...);
  b.o.nargs = sizeof...(A) - (b.o.has_kwargs ? 1 : 0);
  b.o.npos = b.o.nargs;
  (b.add(extra), ...);
  const auto policy = b.o.policy;
  b.o.impl = [f = std::decay_t<F>(std::forward<F>(f)),
              policy](call_state &call) mutable -> PyObject * {
    std::tuple<caster<intrinsic_t<A>>...> casters;
    if (!(std::get<I>(casters).load(call.args[I], call.convert[I]) && ...))
      return try_next;
    const auto run = [&]() -> R {
      return f(argument<A>(std::get<I>(casters))...);
    };
    if constexpr (std::is_void_v<R>) {
      guarded<Extra...>(run);
      return none().release().ptr();
    } else {
      auto p = policy;
      if constexpr (!std::is_lvalue_reference_v<R>)
        p = return_value_policy::move;
      decltype(auto) result = guarded<Extra...>(run);
      if constexpr (std::is_lvalue_reference_v<R>)
        return pybind11::cast(result, p, call.parent).release().ptr();
      else
        return pybind11::cast(std::move(result), p, call.parent)
            .release()
            .ptr();
    }
  };
  return std::move(b.o);
}
template <class S, class F, class R, class... A, class... Extra>
overload make_impl(F &&f, bool method, R (*p)(A...), const Extra &...extra) {
  return make_overload(std::forward<F>(f), p, method,
                       std::index_sequence_for<A...>{}, extra...);
}

template <class F, class... Extra>
overload make(F &&f, bool method, const Extra &...extra) {
  using S = typename signature<std::decay_t<F>>::type;
  return make_impl<S>(std::forward<F>(f), method, static_cast<S *>(nullptr),
                      extra...);
}

/// Member functions become functions of a T.
template <class T, class R, class C, class... A>
auto adapt(R (C::*f)(A...)) {
  return [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
}
template <class T, class R, class C, class... A>
auto adapt(R (C::*f)(A...) const) {
  return [f](const T &self, A... a) -> R {
    return (self.*f)(std::forward<A>(a)...);
  };
}
template <class T, class R, class C, class... A>
auto adapt(R (C::*f)(A...) noexcept) {
  return [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
}
template <class T, class R, class C, class... A>
auto adapt(R (C::*f)(A...) const noexcept) {
  return [f](const T &self, A... a) -> R {
    return (self.*f)(std::forward<A>(a)...);
  };
}
template <class T, class F,
          class = std::enable_if_t<!std::is_member_pointer_v<std::decay_t<F>>>>
F &&adapt(F &&f) {
  return std::forward<F>(f);
}

void set_property(handle cls, const char *name, handle getter, handle setter,
                  const char *doc, bool is_static);
type_info *make_type(handle scope, const char *name, const char *doc,
                     bool dynamic);

template <class E> const char *doc_of(const E &e) {
  if constexpr (std::is_convertible_v<E, const char *>)
    return e;
  else
    return nullptr;
}

} // namespace detail

class cpp_function : public object {
public:
  template <class F, class... Extra>
  cpp_function(F &&f, const Extra &...extra)
      : object(detail::add_function(
            "", {}, false,
            detail::make(std::forward<F>(f), false, extra...))) {}
};

template <class... Args> struct overload_cast_impl {
  template <class R> constexpr auto operator()(R (*f)(Args...)) const {
    return f;
  }
  template <class R, class C>
  constexpr auto operator()(R (C::*f)(Args...)) const {
    return f;
  }
  template <class R, class C>
  constexpr auto operator()(R (C::*f)(Args...) const) const {
    return f;
  }
};
template <class... Args>
inline constexpr overload_cast_impl<Args...> overload_cast{};

// -------------------------------------------------------------------- modules

class module_ : public object {
  SHIM_OBJECT(module_, object, PyModule_Check)
  static module_ import(const char *name) {
    return {detail::steal(PyImport_ImportModule(name)).release(), stolen_t{}};
  }
  template <class F, class... Extra>
  module_ &def(const char *name, F &&f, const Extra &...extra) {
    detail::add_function(name, *this, false,
                         detail::make(std::forward<F>(f), false, extra...));
    return *this;
  }
  module_ def_submodule(const char *name, const char * = nullptr) {
    const auto full = std::string(PyModule_GetName(ptr())) + "." + name;
    auto *sub = PyImport_AddModule(full.c_str());
    if (!sub)
      throw error_already_set();
    module_ result(sub, borrowed_t{});
    attr(name) = result;
    return result;
  }
};
using module = module_;

// -------------------------------------------------------------------- classes

namespace detail {
template <class... Args> struct init_args {};
template <class F> struct init_factory {
  F f;
};
struct self_t {};
template <class Op> struct self_op {
  using op = Op;
};
struct self_hash {};
template <class T> void set_value(handle self, T &&v) {
  using D = std::decay_t<T>;
  auto *inst = reinterpret_cast<instance *>(self.ptr());
  if (inst->value) {
    deregister_instance(inst);
    if (inst->owned)
      inst->info->destroy(inst->value);
    inst->value = nullptr;
  }
  inst->info = find_type(typeid(D));
  inst->value = new D(std::forward<T>(v));
  inst->owned = true;
  register_instance(inst);
}
} // namespace detail

template <class... Args> detail::init_args<Args...> init() { return {}; }
template <class F> detail::init_factory<std::decay_t<F>> init(F &&f) {
  return {std::forward<F>(f)};
}

inline constexpr detail::self_t self{};
#define SHIM_OP(name, op)                                                      \
  namespace detail {                                                           \
  struct op_##name {                                                           \
    static constexpr const char *method = "__" #name "__";                     \
    template <class T> auto operator()(const T &a, const T &b) const {         \
      return a op b;                                                           \
    }                                                                          \
  };                                                                           \
  inline self_op<op_##name> operator op(const self_t &, const self_t &) {      \
    return {};                                                                 \
  }                                                                            \
  }
SHIM_OP(add, +)
SHIM_OP(sub, -)
SHIM_OP(mul, *)
SHIM_OP(truediv, /)
SHIM_OP(eq, ==)
SHIM_OP(ne, !=)
#undef SHIM_OP
namespace detail {
inline self_hash hash(const self_t &) { return {}; }
} // namespace detail

template <class T, class... Options> class class_ : public object {
public:
  template <class... Extra>
  class_(handle scope, const char *name, const Extra &...extra) {
    constexpr bool dynamic = (std::is_same_v<Extra, dynamic_attr> || ...);
    const char *doc = nullptr;
    ((detail::doc_of(extra) ? void(doc = detail::doc_of(extra)) : void()), ...);
    auto *info = detail::make_type(scope, name, doc, dynamic);
    info->destroy = &detail::destroy_as<T>;
    detail::get_internals().types[typeid(T)] = info;
    (register_holder<Options>(scope, info), ...);
    static_cast<object &>(*this) =
        object(reinterpret_cast<PyObject *>(info->type), borrowed_t{});
  }

  template <class F, class... Extra>
  class_ &def(const char *name, F &&f, const Extra &...extra) {
    detail::add_function(
        name, *this, true,
        detail::make(detail::adapt<T>(std::forward<F>(f)), true, extra...));
    return *this;
  }
  template <class... Args, class... Extra>
  class_ &def(detail::init_args<Args...>, const Extra &...extra) {
    return def(
        "__init__",
        [](handle self, Args... a) {
          detail::set_value(self, T(std::forward<Args>(a)...));
        },
        extra...);
  }
  template <class F, class... Extra>
  class_ &def(detail::init_factory<F> &&init, const Extra &...extra) {
    using S = typename detail::signature<F>::type;
    return def_init(std::move(init.f), static_cast<S *>(nullptr), extra...);
  }
  template <class Op, class... Extra>
  class_ &def(detail::self_op<Op>, const Extra &...extra) {
    return def(
        Op::method, [](const T &a, const T &b) { return Op{}(a, b); },
        is_operator(), extra...);
  }
  class_ &def(detail::self_hash) {
    return def("__hash__", [](const T &a) {
      return static_cast<int64_t>(std::hash<T>{}(a) >> 1);
    });
  }

  template <class G, class... Extra>
  class_ &def_property_readonly(const char *name, G &&getter,
                                const Extra &...extra) {
    return property(name, get(std::forward<G>(getter), extra...), {}, extra...);
  }
  template <class G, class S, class... Extra>
  class_ &def_property(const char *name, G &&getter, S &&setter,
                       const Extra &...extra) {
    object s = detail::add_function(
        "", {}, false,
        detail::make(detail::adapt<T>(std::forward<S>(setter)), false));
    return property(name, get(std::forward<G>(getter), extra...), s, extra...);
  }
  template <class G, class... Extra>
  class_ &def_property_readonly_static(const char *name, G &&getter,
                                       const Extra &...) {
    object g = detail::add_function(
        "", {}, false,
        detail::make(std::forward<G>(getter), false,
                     return_value_policy::reference));
    detail::set_property(*this, name, g, {}, nullptr, true);
    return *this;
  }

private:
  template <class Holder>
  void register_holder(handle scope, detail::type_info *info) {
    // Instances of this class hold a Holder, and are made from it.
    info->destroy = &detail::destroy_as<Holder>;
    detail::get_internals().types.erase(typeid(T));
    detail::get_internals().types[typeid(Holder)] = info;
  }
  template <class F, class R, class... A, class... Extra>
  class_ &def_init(F &&f, R (*)(A...), const Extra &...extra) {
    return def(
        "__init__",
        [f = std::move(f)](handle self, A... a) {
          detail::set_value(self, f(std::forward<A>(a)...));
        },
        extra...);
  }
  template <class G, class... Extra>
  object get(G &&getter, const Extra &...extra) {
    if constexpr (std::is_base_of_v<object, std::decay_t<G>>)
      return getter;
    else
      return detail::add_function(
          "", {}, false,
          detail::make(detail::adapt<T>(std::forward<G>(getter)), false,
                       return_value_policy::reference_internal, extra...));
  }
  template <class... Extra>
  class_ &property(const char *name, handle g, handle s,
                   const Extra &...extra) {
    const char *doc = nullptr;
    ((detail::doc_of(extra) ? void(doc = detail::doc_of(extra)) : void()), ...);
    detail::set_property(*this, name, g, s, doc, false);
    return *this;
  }
};

// ------------------------------------------------------------------ iteration

namespace detail {
struct iterator_state {
  std::function<object()> next; // null at the end
};
void ensure_iterator_type();
} // namespace detail

template <return_value_policy Policy = return_value_policy::reference_internal,
          class It, class End, class... Extra>
iterator make_iterator(It first, End last, const Extra &...extra) {
  detail::ensure_iterator_type();
  auto policy = Policy;
  ((policy = extra), ...);
  auto state = std::make_shared<std::pair<It, End>>(std::move(first),
                                                    std::move(last));
  auto self = std::make_shared<PyObject *>(nullptr);
  auto out = pybind11::cast(
      detail::iterator_state{[state, policy, self, started = false]() mutable {
        if (started)
          ++state->first;
        started = true;
        if (state->first == state->second)
          return object{};
        // The iterator is the parent of what it gives.
        return pybind11::cast(*state->first, policy, handle(*self));
      }});
  *self = out.ptr();
  return {out.release(), object::stolen_t{}};
}

// ----------------------------------------------------------------- exceptions

inline void register_exception_translator(void (*f)(std::exception_ptr)) {
  detail::get_internals().translators.push_back(f);
}
template <class T> class exception : public object {
public:
  exception(handle scope, const char *name, handle base) {
    const auto full = std::string(PyModule_GetName(scope.ptr())) + "." + name;
    static_cast<object &>(*this) =
        detail::steal(PyErr_NewException(full.c_str(), base.ptr(), nullptr));
    scope.attr(name) = static_cast<const object &>(*this);
  }
};
template <class T>
exception<T> &register_exception(handle scope, const char *name, handle base) {
  static auto &exc = *new exception<T>(scope, name, base);
  register_exception_translator([](std::exception_ptr p) {
    try {
      std::rethrow_exception(p);
    } catch (const T &e) {
      PyErr_SetString(exc.ptr(), e.what());
    }
  });
  return exc;
}

template <class From, class To> void implicitly_convertible() {
  auto *info = detail::find_type(typeid(To));
  info->implicit.push_back([](handle src) -> object {
    if (!detail::caster<From>{}.load(src, false))
      return {};
    PyObject *r = PyObject_CallOneArg(
        reinterpret_cast<PyObject *>(detail::find_type(typeid(To))->type),
        src.ptr());
    if (!r)
      PyErr_Clear();
    return {r, object::stolen_t{}};
  });
}

template <class T> std::string type_id() { return detail::type_name<T>(); }

} // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                        \
  static void shim_init_##name(::pybind11::module_ &);                         \
  extern "C" __attribute__((visibility("default"))) PyObject *                 \
      PyInit_##name() {                                                        \
    static PyModuleDef def{PyModuleDef_HEAD_INIT, "scipp." #name, nullptr, -1, \
                           nullptr};                                           \
    auto *m = PyModule_Create(&def);                                           \
    if (!m)                                                                    \
      return nullptr;                                                          \
    try {                                                                      \
      ::pybind11::module_ mod(m, ::pybind11::object::borrowed_t{});            \
      shim_init_##name(mod);                                                   \
      return m;                                                                \
    } catch (::pybind11::error_already_set &e) {                               \
      e.restore();                                                             \
    } catch (const std::exception &e) {                                        \
      PyErr_SetString(PyExc_ImportError, e.what());                            \
    }                                                                          \
    return nullptr;                                                            \
  }                                                                            \
  void shim_init_##name(::pybind11::module_ &variable)

#include "typing.h"
