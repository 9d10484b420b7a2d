#pragma once
#include "pybind11.h"

#define NPY_NO_DEPRECATED_API NPY_2_0_API_VERSION
#define PY_ARRAY_UNIQUE_SYMBOL shim_array_api
#ifndef SHIM_IMPLEMENTATION
#define NO_IMPORT_ARRAY
#endif
#include <numpy/arrayobject.h>

namespace pybind11 {

struct buffer_info {
  void *ptr = nullptr;
  ssize_t itemsize = 0;
  ssize_t size = 0;
  std::string format;
  ssize_t ndim = 0;
  std::vector<ssize_t> shape;
  std::vector<ssize_t> strides;
};

namespace detail {
template <class T> constexpr int npy_type() {
  if constexpr (std::is_same_v<T, bool>)
    return NPY_BOOL;
  else if constexpr (std::is_same_v<T, double>)
    return NPY_DOUBLE;
  else if constexpr (std::is_same_v<T, float>)
    return NPY_FLOAT;
  else if constexpr (sizeof(T) == 8 && std::is_signed_v<T>)
    return NPY_INT64;
  else if constexpr (sizeof(T) == 4 && std::is_signed_v<T>)
    return NPY_INT32;
  else if constexpr (sizeof(T) == 8)
    return NPY_UINT64;
  else
    return NPY_UINT32;
}
template <class T>
constexpr bool is_pod_like =
    std::is_same_v<T, bool> || std::is_same_v<T, double> ||
    std::is_same_v<T, float> ||
    (std::is_integral_v<T> && (sizeof(T) == 8 || sizeof(T) == 4));

struct npy_api {
  enum constants { NPY_ARRAY_WRITEABLE_ = 0x0400 };
};
inline PyArrayObject_fields *array_proxy(PyObject *p) {
  return reinterpret_cast<PyArrayObject_fields *>(p);
}
inline bool is_array(PyObject *p) { return PyArray_Check(p); }
inline bool is_descr(PyObject *p) { return PyArray_DescrCheck(p); }
} // namespace detail

class dtype : public object {
  SHIM_OBJECT(dtype, object, detail::is_descr)
  explicit dtype(const std::string &name) {
    *this = from_args(str(name));
  }
  static dtype from_args(const object &o) {
    PyArray_Descr *d = nullptr;
    if (!PyArray_DescrConverter(o.ptr(), &d) || !d)
      throw error_already_set();
    return {handle(reinterpret_cast<PyObject *>(d)), stolen_t{}};
  }
  template <class T> static dtype of() {
    static_assert(detail::is_pod_like<T>);
    return {handle(reinterpret_cast<PyObject *>(
                PyArray_DescrFromType(detail::npy_type<T>()))),
            stolen_t{}};
  }
  char kind() const { return descr()->kind; }
  ssize_t itemsize() const { return PyDataType_ELSIZE(descr()); }

private:
  PyArray_Descr *descr() const {
    return reinterpret_cast<PyArray_Descr *>(ptr());
  }
};

class array : public buffer {
  static PyObject *make(PyObject *p) {
    return PyArray_FromAny(p, nullptr, 0, 0, NPY_ARRAY_ENSUREARRAY, nullptr);
  }
  SHIM_OBJECT(array, buffer, detail::is_array)
  SHIM_CONVERT(array, buffer, make)
  template <class Shape, class Strides>
  array(const pybind11::dtype &dt, const Shape &shape, const Strides &strides,
        const void *ptr, handle base = {})
      : buffer(build(dt, shape, strides, ptr, base), stolen_t{}) {}

  pybind11::dtype dtype() const {
    return {handle(reinterpret_cast<PyObject *>(PyArray_DESCR(arr()))),
            borrowed_t{}};
  }
  ssize_t ndim() const { return PyArray_NDIM(arr()); }
  ssize_t size() const { return PyArray_SIZE(arr()); }
  const ssize_t *shape() const { return PyArray_DIMS(arr()); }
  ssize_t shape(ssize_t i) const { return PyArray_DIM(arr(), i); }
  ssize_t strides(ssize_t i) const { return PyArray_STRIDE(arr(), i); }
  const void *data() const { return PyArray_DATA(arr()); }
  buffer_info request() const {
    buffer_info info;
    info.ptr = PyArray_DATA(arr());
    info.itemsize = PyArray_ITEMSIZE(arr());
    info.size = size();
    info.ndim = ndim();
    for (ssize_t i = 0; i < info.ndim; ++i) {
      info.shape.push_back(shape(i));
      info.strides.push_back(strides(i));
    }
    return info;
  }

protected:
  PyArrayObject *arr() const {
    return reinterpret_cast<PyArrayObject *>(ptr());
  }
  template <class Shape, class Strides>
  static handle build(const pybind11::dtype &dt, const Shape &shape,
                      const Strides &strides, const void *ptr, handle base) {
    std::vector<npy_intp> sh(shape.begin(), shape.end());
    std::vector<npy_intp> st(strides.begin(), strides.end());
    int flags = 0;
    if (base && ptr)
      flags = PyArray_Check(base.ptr())
                  ? PyArray_FLAGS(
                        reinterpret_cast<PyArrayObject *>(base.ptr())) &
                        ~NPY_ARRAY_OWNDATA
                  : NPY_ARRAY_WRITEABLE;
    dt.inc_ref();
    auto tmp = detail::steal(PyArray_NewFromDescr(
        &PyArray_Type, reinterpret_cast<PyArray_Descr *>(dt.ptr()),
        static_cast<int>(sh.size()), sh.data(), st.data(),
        const_cast<void *>(ptr), flags, nullptr));
    if (ptr) {
      auto *a = reinterpret_cast<PyArrayObject *>(tmp.ptr());
      if (base) {
        base.inc_ref();
        PyArray_SetBaseObject(a, base.ptr());
      } else {
        tmp = detail::steal(PyArray_NewCopy(a, NPY_ANYORDER));
      }
    }
    return tmp.release();
  }
};

template <class T> class array_t : public array {
public:
  array_t(handle h, stolen_t) : array(h, stolen_t{}) {}
  array_t(handle h, borrowed_t) : array(h, borrowed_t{}) {}
  array_t(const array_t &) = default;
  array_t(array_t &&) = default;
  array_t(const object &o) : array(convert(o), stolen_t{}) {
    if (!ptr())
      throw error_already_set();
  }
  explicit array_t(const buffer_info &info)
      : array(pybind11::dtype::of<T>(), info.shape, info.strides, info.ptr) {}
  static bool check_(handle h) {
    return array::check_(h) &&
           PyArray_EquivTypes(
               PyArray_DESCR(reinterpret_cast<PyArrayObject *>(h.ptr())),
               reinterpret_cast<PyArray_Descr *>(
                   pybind11::dtype::of<T>().ptr()));
  }
  static handle convert(handle h) {
    auto d = pybind11::dtype::of<T>().release();
    return PyArray_FromAny(h.ptr(),
                           reinterpret_cast<PyArray_Descr *>(d.ptr()), 0, 0,
                           NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST,
                           nullptr);
  }

  template <ssize_t N> struct reference {
    const char *data;
    std::array<ssize_t, N> shape_, strides_;
    ssize_t shape(ssize_t i) const { return shape_[i]; }
    template <class... I> const T &operator()(I... i) const {
      const char *p = data;
      size_t d = 0;
      ((p += static_cast<ssize_t>(i) * strides_[d++]), ...);
      return *reinterpret_cast<const T *>(p);
    }
  };
  template <ssize_t N> reference<N> unchecked() const {
    if (ndim() != N)
      throw std::domain_error("array has incorrect number of dimensions: " +
                              std::to_string(ndim()) + "; expected " +
                              std::to_string(N));
    reference<N> r;
    r.data = static_cast<const char *>(data());
    for (ssize_t i = 0; i < N; ++i) {
      r.shape_[i] = shape(i);
      r.strides_[i] = strides(i);
    }
    return r;
  }
};

namespace detail {
template <class T> struct is_typed_array<array_t<T>> : std::true_type {};
template <class T> struct caster<array_t<T>> {
  std::optional<array_t<T>> value;
  bool load(handle src, bool convert) {
    if (!src || (!convert && !array_t<T>::check_(src)))
      return false;
    object o(array_t<T>::convert(src), object::stolen_t{});
    if (!o) {
      PyErr_Clear();
      return false;
    }
    value.emplace(o, object::borrowed_t{});
    return true;
  }
  array_t<T> &ref() { return *value; }
  array_t<T> take() { return *value; }
  template <class U>
  static object cast(U &&v, return_value_policy, handle) {
    return {v, object::borrowed_t{}};
  }
};
} // namespace detail
} // namespace pybind11
