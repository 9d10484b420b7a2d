#define SHIM_IMPLEMENTATION
#include <pybind11/numpy.h>

#include <structmember.h>

namespace pybind11::detail {

internals &get_internals() {
  static auto &i = *new internals;
  return i;
}

namespace {
const char *const capsule_name = "scipp shim function";

void translate(std::exception_ptr p) {
  auto &all = get_internals().translators;
  for (auto it = all.rbegin(); it != all.rend(); ++it) {
    try {
      (*it)(p);
      return;
    } catch (...) {
      p = std::current_exception();
    }
  }
  try {
    std::rethrow_exception(p);
  } catch (error_already_set &e) {
    e.restore();
  } catch (const type_error &e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (const value_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const index_error &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const key_error &e) {
    PyErr_SetString(PyExc_KeyError, e.what());
  } catch (const stop_iteration &e) {
    PyErr_SetString(PyExc_StopIteration, e.what());
  } catch (const std::bad_alloc &e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error &e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception &e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}

/// Puts the arguments of a call in place; false if they do not fit.
bool arrange(const overload &o, PyObject *args, PyObject *kwargs,
             call_state &call) {
  const auto given = static_cast<size_t>(PyTuple_GET_SIZE(args));
  if (given > o.npos || (given < o.nargs && o.args.size() < o.nargs &&
                         given < o.nargs - o.args.size()))
    return false;
  call.args.clear();
  for (size_t i = 0; i < given; ++i) {
    if (i < o.args.size() && kwargs && !o.args[i].name.empty() &&
        PyDict_GetItemString(kwargs, o.args[i].name.c_str()))
      return false;
    call.args.emplace_back(PyTuple_GET_ITEM(args, i), object::borrowed_t{});
  }
  object rest(kwargs ? PyDict_Copy(kwargs) : PyDict_New(), object::stolen_t{});
  for (size_t i = given; i < o.nargs; ++i) {
    if (i >= o.args.size())
      return false;
    const auto &a = o.args[i];
    if (PyObject *v = PyDict_GetItemString(rest.ptr(), a.name.c_str())) {
      call.args.emplace_back(v, object::borrowed_t{});
      PyDict_DelItemString(rest.ptr(), a.name.c_str());
    } else if (a.value) {
      call.args.push_back(a.value);
    } else {
      return false;
    }
  }
  if (PyDict_Size(rest.ptr()) != 0 && !o.has_kwargs)
    return false;
  if (o.has_kwargs)
    call.args.push_back(rest);
  return true;
}
} // namespace

PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kwargs) {
  auto *f = static_cast<function_record *>(
      PyCapsule_GetPointer(self, capsule_name));
  object parent;
  if (PyTuple_GET_SIZE(args) > 0)
    parent = object(PyTuple_GET_ITEM(args, 0), object::borrowed_t{});
  try {
    const bool several = f->overloads.size() > 1;
    for (const bool convert : {false, true}) {
      if (!convert && !several)
        continue;
      for (auto &o : f->overloads) {
        call_state call;
        call.parent = parent;
        if (!arrange(o, args, kwargs, call))
          continue;
        call.convert.assign(call.args.size(), convert);
        PyObject *res = try_next;
        try {
          res = o.impl(call);
        } catch (const reference_cast_error &) {
        }
        if (res == try_next)
          continue;
        for (const auto &[n, p] : o.keep_alive)
          keep_alive_impl(n == 0 ? handle(res) : call.args[n - 1],
                          p == 0 ? handle(res) : call.args[p - 1]);
        return res;
      }
    }
  } catch (...) {
    translate(std::current_exception());
    return nullptr;
  }
  if (f->overloads[0].is_operator) {
    Py_INCREF(Py_NotImplemented);
    return Py_NotImplemented;
  }
  std::string what = f->name + "(): incompatible function arguments. Invoked "
                               "with:";
  for (ssize_t i = 0; i < PyTuple_GET_SIZE(args); ++i)
    what += std::string(i ? ", " : " ") +
            Py_TYPE(PyTuple_GET_ITEM(args, i))->tp_name;
  PyErr_SetString(PyExc_TypeError, what.c_str());
  return nullptr;
}

object add_function(const char *name, handle scope, bool method,
                    overload &&o) {
  // Overloads of the same name in the same scope
  if (scope && *name) {
    object existing;
    if (method) {
      auto *d = reinterpret_cast<PyTypeObject *>(scope.ptr())->tp_dict;
      if (PyObject *p = PyDict_GetItemString(d, name))
        existing = object(p, object::borrowed_t{});
    } else if (hasattr(scope, name)) {
      existing = getattr(scope, name);
    }
    if (existing) {
      PyObject *p = existing.ptr();
      if (PyInstanceMethod_Check(p))
        p = PyInstanceMethod_GET_FUNCTION(p);
      if (PyCFunction_Check(p)) {
        PyObject *cap = PyCFunction_GET_SELF(p);
        if (cap && PyCapsule_CheckExact(cap) &&
            PyCapsule_IsValid(cap, capsule_name)) {
          auto *f = static_cast<function_record *>(
              PyCapsule_GetPointer(cap, capsule_name));
          if (f->scope == scope.ptr()) {
            f->overloads.push_back(std::move(o));
            return existing;
          }
        }
      }
    }
  }
  auto *f = new function_record;
  f->name = name;
  f->doc = o.doc;
  f->scope = scope.ptr();
  f->overloads.push_back(std::move(o));
  f->def = {f->name.c_str(), reinterpret_cast<PyCFunction>(&dispatch),
            METH_VARARGS | METH_KEYWORDS,
            f->doc.empty() ? nullptr : f->doc.c_str()};
  auto cap = steal(PyCapsule_New(f, capsule_name, nullptr));
  object module;
  if (scope)
    module = getattr(scope, method ? "__module__" : "__name__");
  auto fn = steal(PyCFunction_NewEx(&f->def, cap.ptr(), module.ptr()));
  if (method)
    fn = steal(PyInstanceMethod_New(fn.ptr()));
  if (scope && *name) {
    scope.attr(name) = fn;
    if (method && f->name == "__eq__") {
      auto *d = reinterpret_cast<PyTypeObject *>(scope.ptr())->tp_dict;
      if (!PyDict_GetItemString(d, "__hash__"))
        scope.attr("__hash__") = none();
    }
  }
  return fn;
}

namespace {
void ensure_metaclass() {
  auto &in = get_internals();
  if (in.metaclass)
    return;
  dict ns;
  ns["__builtins__"] = module_::import("builtins");
  ns["__name__"] = "scipp._scipp";
  steal(PyRun_String(
      "class static_property(property):\n"
      "    def __get__(self, obj, cls):\n"
      "        return property.__get__(self, cls, cls)\n"
      "class metaclass(type):\n"
      "    def __setattr__(cls, name, value):\n"
      "        if isinstance(cls.__dict__.get(name), static_property):\n"
      "            raise AttributeError('static property is read-only')\n"
      "        type.__setattr__(cls, name, value)\n",
      Py_file_input, ns.ptr(), ns.ptr()));
  in.static_property = ns["static_property"];
  in.metaclass = ns["metaclass"];
}
} // namespace

void set_property(handle cls, const char *name, handle getter, handle setter,
                  const char *doc, bool is_static) {
  object type(reinterpret_cast<PyObject *>(&PyProperty_Type),
              object::borrowed_t{});
  if (is_static) {
    type = get_internals().static_property;
  }
  object g = getter ? object(getter, object::borrowed_t{}) : object(none());
  object s = setter ? object(setter, object::borrowed_t{}) : object(none());
  cls.attr(name) = type(g, s, none(), str(doc ? doc : ""));
}

type_info *make_type(handle scope, const char *name, const char *doc,
                     bool dynamic) {
  ensure_metaclass();
  auto *info = new type_info;
  object mod = scope ? getattr(scope, "__name__") : object(str("scipp._scipp"));
  info->name = *new std::string(static_cast<std::string>(str(mod)) + "." + name);
  static PyMemberDef members[] = {
      {"__weaklistoffset__", T_PYSSIZET, offsetof(instance, weakrefs),
       READONLY},
      {nullptr}};
  static PyMemberDef dynamic_members[] = {
      {"__weaklistoffset__", T_PYSSIZET, offsetof(instance, weakrefs),
       READONLY},
      {"__dictoffset__", T_PYSSIZET, offsetof(instance, dict), READONLY},
      {nullptr}};
  static PyGetSetDef getset[] = {{"__dict__", PyObject_GenericGetDict,
                                  PyObject_GenericSetDict, nullptr, nullptr},
                                 {nullptr}};
  std::vector<PyType_Slot> slots{
      {Py_tp_new, reinterpret_cast<void *>(&instance_new)},
      {Py_tp_init, reinterpret_cast<void *>(&instance_init)},
      {Py_tp_dealloc, reinterpret_cast<void *>(&instance_dealloc)},
      {Py_tp_members, dynamic ? dynamic_members : members}};
  if (doc)
    slots.push_back({Py_tp_doc, const_cast<char *>(doc)});
  unsigned flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
  if (dynamic) {
    flags |= Py_TPFLAGS_HAVE_GC;
    slots.push_back(
        {Py_tp_traverse, reinterpret_cast<void *>(&instance_traverse)});
    slots.push_back({Py_tp_clear, reinterpret_cast<void *>(&instance_clear)});
    slots.push_back({Py_tp_getset, getset});
  }
  slots.push_back({0, nullptr});
  PyType_Spec spec{info->name.c_str(), sizeof(instance), 0, flags,
                   slots.data()};
  auto type = steal(PyType_FromMetaclass(
      reinterpret_cast<PyTypeObject *>(get_internals().metaclass.ptr()),
      nullptr, &spec, nullptr));
  info->type = reinterpret_cast<PyTypeObject *>(type.ptr());
  type.attr("__module__") = mod;
  if (scope)
    scope.attr(name) = type;
  type.release();
  return info;
}

void ensure_iterator_type() {
  if (find_type(typeid(iterator_state)))
    return;
  class_<iterator_state>({}, "iterator")
      .def("__iter__",
           [](handle self) { return object(self, object::borrowed_t{}); })
      .def("__next__", [](iterator_state &s) {
        if (s.next) {
          if (auto o = s.next())
            return o;
          s.next = nullptr;
        }
        throw stop_iteration("");
      });
}

} // namespace pybind11::detail

extern "C" PyObject *PyInit__scipp();

namespace {
PyObject *init() {
  if (_import_array() < 0)
    return nullptr;
  return PyInit__scipp();
}
} // namespace

int main(int argc, char **argv) {
  PyImport_AppendInittab("scipp._scipp", &init);
  return Py_BytesMain(argc, argv);
}
