#include <Python.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <malloc.h>
#include <new>
extern "C" {
void dst_py_pause(int d);
typedef uint32_t (*dst_rand_fn)(void);
typedef int64_t (*dst_clock_fn)(void);
dst_rand_fn dst_rand_cb = nullptr;
dst_clock_fn dst_clock_cb = nullptr;
static int64_t alloc_count = 0, alloc_fail_at = -1, alloc_failed = 0, alloc_sticky = 0;
void dst_set_callbacks(dst_rand_fn r, dst_clock_fn c) { dst_rand_cb = r; dst_clock_cb = c; }
void dst_alloc_arm(int64_t at, int64_t sticky) { alloc_count = 0; alloc_failed = 0; alloc_fail_at = at; alloc_sticky = sticky; }
int64_t dst_alloc_count(void) { return alloc_count; }
int64_t dst_alloc_failed(void) { return alloc_failed; }
// the module's own calls of these C functions resolve here (-Bsymbolic)
__attribute__((visibility("hidden"))) time_t time(time_t* t) {
  dst_py_pause(1);
  time_t v = dst_clock_cb ? (time_t)(dst_clock_cb() / 1000000000LL) : 0;
  dst_py_pause(-1);
  if (t) *t = v;
  return v;
}
}
static inline bool fail_now() {
  ++alloc_count;
  if (alloc_fail_at >= 0 && (alloc_sticky ? alloc_count > alloc_fail_at : alloc_count == alloc_fail_at + 1)) { ++alloc_failed; return true; }
  return false;
}
// fresh memory holds no zeros and freed memory no old values, so that code that depends on either goes wrong visibly
static inline void* fill(void* p, std::size_t n) { if (p) std::memset(p, 0xCB, n); return p; }
static inline void drop(void* p) { if (p) { std::memset(p, 0xDD, malloc_usable_size(p)); std::free(p); } }
#define HID __attribute__((visibility("hidden")))
HID void* operator new(std::size_t n) { if (!fail_now()) if (void* p = fill(std::malloc(n ? n : 1), n)) return p; throw std::bad_alloc(); }
HID void* operator new[](std::size_t n) { if (!fail_now()) if (void* p = fill(std::malloc(n ? n : 1), n)) return p; throw std::bad_alloc(); }
HID void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return fail_now() ? nullptr : fill(std::malloc(n ? n : 1), n); }
HID void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return fail_now() ? nullptr : fill(std::malloc(n ? n : 1), n); }
static void* al(std::size_t n, std::align_val_t a) { if (!fail_now()) { void* p = nullptr; if (posix_memalign(&p, (std::size_t)a < sizeof(void*) ? sizeof(void*) : (std::size_t)a, n ? n : 1) == 0) return fill(p, n); } return nullptr; }
HID void* operator new(std::size_t n, std::align_val_t a) { if (void* p = al(n, a)) return p; throw std::bad_alloc(); }
HID void* operator new[](std::size_t n, std::align_val_t a) { if (void* p = al(n, a)) return p; throw std::bad_alloc(); }
HID void operator delete(void* p) noexcept { drop(p); }
HID void operator delete[](void* p) noexcept { drop(p); }
HID void operator delete(void* p, std::size_t) noexcept { drop(p); }
HID void operator delete[](void* p, std::size_t) noexcept { drop(p); }
HID void operator delete(void* p, std::align_val_t) noexcept { drop(p); }
HID void operator delete[](void* p, std::align_val_t) noexcept { drop(p); }
HID void operator delete(void* p, std::size_t, std::align_val_t) noexcept { drop(p); }
HID void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { drop(p); }
// allocations of the Python interpreter inside one call of a native function
static PyMemAllocatorEx py_orig[2];
static const PyMemAllocatorDomain py_domain[2] = {PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
static int64_t py_count = 0, py_fail_at = -1, py_failed = 0, py_sticky = 0, py_pause = 0;
static bool py_fail() {
  if (py_pause) return false;
  ++py_count;
  if (py_fail_at >= 0 && (py_sticky ? py_count > py_fail_at : py_count == py_fail_at + 1)) { ++py_failed; return true; }
  return false;
}
static void* py_malloc(void* c, size_t n) { auto* a = (PyMemAllocatorEx*)c; return py_fail() ? nullptr : a->malloc(a->ctx, n); }
static void* py_calloc(void* c, size_t k, size_t n) { auto* a = (PyMemAllocatorEx*)c; return py_fail() ? nullptr : a->calloc(a->ctx, k, n); }
static void* py_realloc(void* c, void* p, size_t n) { auto* a = (PyMemAllocatorEx*)c; return py_fail() ? nullptr : a->realloc(a->ctx, p, n); }
static void py_free(void* c, void* p) { auto* a = (PyMemAllocatorEx*)c; a->free(a->ctx, p); }
extern "C" {
void dst_py_pause(int d) { py_pause += d; }
int64_t dst_py_count(void) { return py_count; }
int64_t dst_py_failed(void) { return py_failed; }
PyObject* dst_py_call(PyObject* f, PyObject* args, int64_t at, int64_t sticky) {
  py_count = py_failed = 0; py_fail_at = at; py_sticky = sticky;
  for (int i = 0; i < 2; ++i) {
    PyMem_GetAllocator(py_domain[i], &py_orig[i]);
    PyMemAllocatorEx a = {&py_orig[i], py_malloc, py_calloc, py_realloc, py_free};
    PyMem_SetAllocator(py_domain[i], &a);
  }
  PyObject* r = PyObject_Call(f, args, nullptr);
  for (int i = 0; i < 2; ++i) PyMem_SetAllocator(py_domain[i], &py_orig[i]);
  py_fail_at = -1;
  if (r == nullptr && !PyErr_Occurred()) PyErr_SetString(PyExc_SystemError, "the native call failed without an exception");
  return r;
}
}
