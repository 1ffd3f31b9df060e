// A host-only stand-in for the part of SYCL 2020 that votess uses.
//
// It exists so that the device code path can be *executed* where there is no
// device compiler.  It is deliberately adversarial within what SYCL allows:
//   * memory nobody initialised holds garbage, and a no_init accessor discards
//     what the buffer held before;
//   * work-items of a kernel run in an order chosen by the harness
//     (sycl_stub::order_seed: 0 = ascending, 1 = descending, else shuffled);
//   * every accessor element records which work-item of the running kernel
//     touched it; a second work-item touching the same element of a writable
//     accessor is a conflict (a data race on a real device);
//   * every access is bounds-checked;
//   * an nd_range whose global size is not a multiple of its local size throws,
//     as the specification requires.
// Conflicts and out-of-range accesses are recorded in sycl_stub::faults.
#ifndef VERIF_SYCL_STUB
#define VERIF_SYCL_STUB

#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace sycl_stub {
  struct faults_t {
    long conflicts = 0;
    long oob = 0;
    std::string first;
    void note(const char* what, size_t at, size_t lim) {
      if (first.empty()) {
        first = std::string(what) + " at " + std::to_string(at) +
                " (size " + std::to_string(lim) + ")";
      }
    }
  };
  inline faults_t faults;
  inline unsigned order_seed = 0;
  inline bool gpu_present = true;
  inline long items_run = 0;
  inline long kernels_run = 0;
  inline long touched = 0;
  inline long current_item = -1;   // work-item running now, -1 outside kernels
  inline long current_kernel = 0;
  inline unsigned char poison = 0xA5;
  inline std::vector<std::function<void()>> at_end;   // of the running kernel
  inline void end_kernel() {
    current_item = -1;
    for (auto& f : at_end) f();
    at_end.clear();
  }

  template <typename T> void fill_poison(T* p, size_t n) {
    static_assert(std::is_trivially_copyable<T>::value || true, "");
    std::memset(static_cast<void*>(p), poison, n * sizeof(T));
  }

  // storage shared by a buffer and its accessors
  template <typename T> struct store {
    std::vector<unsigned char> bytes;
    size_t n = 0;
    std::vector<long> owner;     // last (kernel,item) stamp
    std::vector<long> okernel;
    T sink[4];
    explicit store(size_t n_) : bytes(n_ * sizeof(T) + sizeof(T)), n(n_),
                                owner(n_, -1), okernel(n_, -1) {
      std::memset(bytes.data(), poison, bytes.size());
    }
    T* data() { return reinterpret_cast<T*>(bytes.data()); }
    bool local = false;
    std::vector<size_t> shared_elems;
    std::vector<unsigned char> snap;   // element as the kernel found it
    bool changed(size_t i) const {
      return std::memcmp(&snap[i * sizeof(T)], &bytes[i * sizeof(T)], sizeof(T)) != 0;
    }
    void conflict(size_t i) {
      faults.conflicts++;
      faults.note("two work-items touch an element one of them writes", i, n);
    }
    T& at(size_t i, bool writable) {
      if (i >= n) {
        faults.oob++;
        faults.note("out-of-range access", i, n);
        std::memset(static_cast<void*>(sink), 0, sizeof(T));
        return sink[0];
      }
      if (current_item >= 0 && writable) {
        touched++;
        if (snap.empty()) snap.resize(bytes.size());
        if (okernel[i] != current_kernel) {
          std::memcpy(&snap[i * sizeof(T)], &bytes[i * sizeof(T)], sizeof(T));
          okernel[i] = current_kernel;
          owner[i] = current_item;
        } else if (owner[i] != current_item) {
          if (changed(i)) conflict(i);
          else if (local) shared_elems.push_back(i);
          else at_end.push_back([this, i]() { if (changed(i)) conflict(i); });
          owner[i] = current_item;
        }
      }
      return data()[i];
    }
  };
}

namespace sycl {

enum class errc { success, invalid, nd_range, runtime, kernel };
class exception : public std::exception {
  std::string w;
 public:
  exception() {}
  explicit exception(std::string s) : w(std::move(s)) {}
  const char* what() const noexcept override { return w.c_str(); }
};

using uchar = unsigned char;

namespace access {
  enum class mode { read = 1024, write, read_write, discard_write,
                    discard_read_write, atomic };
  enum class target { global_buffer = 2014, constant_buffer, local, image,
                      host_buffer, host_image, image_array, host_task,
                      device = global_buffer };
  enum class placeholder { false_t, true_t };
  enum class fence_space { local_space, global_space, global_and_local };
}
using access_mode = access::mode;
using target = access::target;

template <access::mode M> struct mode_tag_t {};
inline constexpr mode_tag_t<access::mode::read> read_only{};
inline constexpr mode_tag_t<access::mode::write> write_only{};
inline constexpr mode_tag_t<access::mode::read_write> read_write{};

namespace property {
  struct no_init {};
  namespace queue { struct in_order {}; struct enable_profiling {}; }
  namespace buffer { struct use_host_ptr {}; }
}
inline const property::no_init no_init{};
struct property_list {
  bool has_no_init = false;
  property_list() {}
  template <typename... P> property_list(P...) {
    has_no_init = (false || ... || std::is_same<P, property::no_init>::value);
  }
};
inline const property::no_init noinit{};

template <int D = 1> class id {
  size_t v[D > 0 ? D : 1] = {};
 public:
  id() {}
  id(size_t a) { v[0] = a; }
  size_t& operator[](int i) { return v[i]; }
  const size_t& operator[](int i) const { return v[i]; }
  size_t get(int i) const { return v[i]; }
  operator size_t() const { return v[0]; }
};
template <int D = 1> class range {
  size_t v[D > 0 ? D : 1] = {};
 public:
  range() {}
  range(size_t a) { v[0] = a; }
  size_t& operator[](int i) { return v[i]; }
  const size_t& operator[](int i) const { return v[i]; }
  size_t get(int i) const { return v[i]; }
  size_t size() const { return v[0]; }
  operator size_t() const { return v[0]; }
};
template <int D = 1> class item {
  size_t i_, n_;
 public:
  item(size_t i, size_t n) : i_(i), n_(n) {}
  sycl::id<1> get_id() const { return sycl::id<1>(i_); }
  size_t get_id(int) const { return i_; }
  size_t get_linear_id() const { return i_; }
  size_t operator[](int) const { return i_; }
  sycl::range<1> get_range() const { return sycl::range<1>(n_); }
  size_t get_range(int) const { return n_; }
  operator size_t() const { return i_; }
  operator sycl::id<1>() const { return sycl::id<1>(i_); }
};
template <int D = 1> class nd_range {
  size_t g, l;
 public:
  nd_range(sycl::range<1> g_, sycl::range<1> l_) : g(g_[0]), l(l_[0]) {}
  sycl::range<1> get_global_range() const { return sycl::range<1>(g); }
  sycl::range<1> get_local_range() const { return sycl::range<1>(l); }
  sycl::range<1> get_group_range() const { return sycl::range<1>(l ? g / l : 0); }
};
template <int D = 1> class group {
  size_t gi, l, ng;
 public:
  group(size_t a, size_t b, size_t c) : gi(a), l(b), ng(c) {}
  size_t get_group_id(int = 0) const { return gi; }
  size_t get_group_linear_id() const { return gi; }
  size_t get_local_range(int = 0) const { return l; }
};
template <int D = 1> class nd_item {
  size_t i, l, g;
 public:
  nd_item(size_t i_, size_t l_, size_t g_) : i(i_), l(l_), g(g_) {}
  size_t get_global_linear_id() const { return i; }
  size_t get_local_linear_id() const { return i % l; }
  sycl::id<1> get_global_id() const { return sycl::id<1>(i); }
  sycl::id<1> get_local_id() const { return sycl::id<1>(i % l); }
  size_t get_global_id(int) const { return i; }
  size_t get_local_id(int) const { return i % l; }
  size_t get_group(int) const { return i / l; }
  sycl::group<1> get_group() const { return sycl::group<1>(i / l, l, g / l); }
  size_t get_group_linear_id() const { return i / l; }
  sycl::range<1> get_global_range() const { return sycl::range<1>(g); }
  sycl::range<1> get_local_range() const { return sycl::range<1>(l); }
  size_t get_global_range(int) const { return g; }
  size_t get_local_range(int) const { return l; }
};

class handler;

template <typename T, int D = 1> class host_acc {
  std::shared_ptr<sycl_stub::store<T>> s;
 public:
  explicit host_acc(std::shared_ptr<sycl_stub::store<T>> s_) : s(s_) {}
  T& operator[](size_t i) const { return s->at(i, false); }
  T* begin() const { return s->data(); }
  T* end() const { return s->data() + s->n; }
  T* get_pointer() const { return s->data(); }
  size_t size() const { return s->n; }
};
template <typename T, int D = 1, access::mode M = access::mode::read_write>
using host_accessor = host_acc<T, D>;

template <typename T, int D, access::mode M, access::target G,
          access::placeholder P = access::placeholder::false_t>
class accessor;

template <typename T, int D = 1, typename A = void> class buffer {
 public:
  std::shared_ptr<sycl_stub::store<T>> s;
  explicit buffer(sycl::range<1> r) :
    s(std::make_shared<sycl_stub::store<T>>(r[0])) {}
  buffer(sycl::range<1> r, property_list) : buffer(r) {}
  // Host data is written back when the last handle to a buffer goes away; the
  // write-back of a buffer over const data does not exist.
  buffer(const T* p, sycl::range<1> r, property_list = {}) : buffer(r) {
    if (r[0]) std::memcpy(static_cast<void*>(s->data()), p, r[0] * sizeof(T));
  }
  buffer(T* p, sycl::range<1> r, property_list = {}) : buffer(r) {
    if (r[0]) std::memcpy(static_cast<void*>(s->data()), p, r[0] * sizeof(T));
    auto raw = s;
    wb = std::shared_ptr<void>(nullptr, [raw, p](void*) {
      if (raw->n) std::memcpy(static_cast<void*>(p), raw->data(),
                              raw->n * sizeof(T));
    });
  }
  template <typename It, typename = typename
            std::iterator_traits<It>::iterator_category,
            typename = typename std::enable_if<
              !std::is_pointer<It>::value>::type>
  buffer(It a, It b, property_list = {}) :
      buffer(sycl::range<1>(std::distance(a, b))) {
    size_t i = 0;
    for (; a != b; ++a, ++i) s->data()[i] = *a;
  }
  template <typename C, typename = decltype(std::declval<C&>().data())>
  buffer(C& c, property_list = {}) : buffer(c.data(), sycl::range<1>(c.size())) {}
  size_t size() const { return s->n; }
  size_t get_count() const { return s->n; }
  size_t byte_size() const { return s->n * sizeof(T); }
  sycl::range<1> get_range() const { return sycl::range<1>(s->n); }
  host_acc<T> get_host_access() { return host_acc<T>(s); }
  template <typename X> host_acc<T> get_host_access(X) { return host_acc<T>(s); }
  template <typename X, typename Y>
  host_acc<T> get_host_access(X, Y) { return host_acc<T>(s); }
  template <access::mode M> auto get_access(handler&) {
    return accessor<T, 1, M, access::target::device>(*this);
  }
  template <access::mode M> host_acc<T> get_access() { return host_acc<T>(s); }
 private:
  std::shared_ptr<void> wb;
};
template <typename It> buffer(It, It) ->
  buffer<typename std::iterator_traits<It>::value_type, 1>;

template <typename T, int D = 1, access::mode M = access::mode::read_write,
          access::target G = access::target::device,
          access::placeholder P = access::placeholder::false_t>
class accessor_fwd {};

template <typename T, int D, access::mode M, access::target G,
          access::placeholder P>
class accessor {
  std::shared_ptr<sycl_stub::store<T>> s;
  static constexpr bool writable = (M != access::mode::read);
  void discard() const {
    std::memset(s->bytes.data(), sycl_stub::poison, s->bytes.size());
  }
 public:
  using value_type = T;
  explicit accessor(const buffer<T, 1>& b) : s(b.s) {}
  accessor(const buffer<T, 1>& b, handler&) : s(b.s) {}
  accessor(const buffer<T, 1>& b, handler&, mode_tag_t<M>) : s(b.s) {}
  accessor(const buffer<T, 1>& b, handler&, mode_tag_t<M>, property::no_init) :
    s(b.s) { discard(); }
  accessor(const buffer<T, 1>& b, handler&, mode_tag_t<M>, property_list p) :
    s(b.s) { if (p.has_no_init) discard(); }
  using ref = typename std::conditional<(M == access::mode::read),
                                        const T&, T&>::type;
  ref operator[](size_t i) const { return s->at(i, writable); }
  ref operator[](sycl::id<1> i) const { return s->at(i[0], writable); }
  size_t size() const { return s->n; }
  T* get_pointer() const { return s->data(); }
  sycl::range<1> get_range() const { return sycl::range<1>(s->n); }
};
template <typename T, access::mode M>
accessor(buffer<T, 1>, handler&, mode_tag_t<M>) ->
  accessor<T, 1, M, access::target::device, access::placeholder::false_t>;
template <typename T, access::mode M>
accessor(buffer<T, 1>, handler&, mode_tag_t<M>, property::no_init) ->
  accessor<T, 1, M, access::target::device, access::placeholder::false_t>;
template <typename T, access::mode M>
accessor(buffer<T, 1>, handler&, mode_tag_t<M>, property_list) ->
  accessor<T, 1, M, access::target::device, access::placeholder::false_t>;
template <typename T>
accessor(buffer<T, 1>, handler&) ->
  accessor<T, 1, access::mode::read_write, access::target::device,
           access::placeholder::false_t>;

class handler {
 public:
  // called before the first work-item of every work-group
  std::vector<std::function<void()>> group_reset;
  std::vector<std::function<void()>> group_end;
  bool launched = false;

  template <typename Name = void, typename F>
  void parallel_for(sycl::range<1> r, F f) {
    run_range(r[0], [&](size_t i) { call_range(f, i, r[0]); });
  }
  template <typename Name = void, typename F>
  void parallel_for(size_t n, F f) { parallel_for<Name>(sycl::range<1>(n), f); }
  template <typename Name = void, typename F>
  void parallel_for(sycl::nd_range<1> r, F f) {
    const size_t g = r.get_global_range()[0], l = r.get_local_range()[0];
    if (l == 0 || g % l != 0) {
      throw sycl::exception("Non-uniform work-groups are not supported");
    }
    begin();
    std::vector<size_t> groups(g / l), items(l);
    std::iota(groups.begin(), groups.end(), 0);
    std::iota(items.begin(), items.end(), 0);
    order(groups, 1);
    for (size_t gi : groups) {
      for (auto& h : group_reset) h();
      order(items, 2 + gi);
      for (size_t li : items) {
        const size_t i = gi * l + li;
        sycl_stub::current_item = static_cast<long>(i);
        sycl_stub::items_run++;
        f(sycl::nd_item<1>(i, l, g));
      }
      for (auto& h : group_end) h();
    }
    sycl_stub::end_kernel();
  }
  template <typename Name = void, typename F> void single_task(F f) {
    begin();
    sycl_stub::current_item = 0;
    f();
    sycl_stub::end_kernel();
  }
  template <typename T, typename A> void fill(A a, const T& v) {
    begin();
    for (size_t i = 0; i < a.size(); i++) a[i] = v;
  }
 private:
  template <typename F> static auto call_range(F& f, size_t i, size_t)
    -> decltype(f(sycl::id<1>(i)), void()) { f(sycl::id<1>(i)); }
  template <typename F> static auto call_range(F& f, size_t i, size_t n)
    -> typename std::enable_if<
         std::is_invocable<F&, sycl::item<1>>::value &&
         !std::is_invocable<F&, sycl::id<1>>::value>::type {
    f(sycl::item<1>(i, n));
  }
  void begin() {
    if (launched) throw sycl::exception("two kernels in one command group");
    launched = true;
    sycl_stub::at_end.clear();
    sycl_stub::current_kernel++;
    sycl_stub::kernels_run++;
  }
  static void order(std::vector<size_t>& v, size_t salt) {
    if (sycl_stub::order_seed == 0) return;
    if (sycl_stub::order_seed == 1) { std::reverse(v.begin(), v.end()); return; }
    std::mt19937 gen(static_cast<unsigned>(sycl_stub::order_seed * 7919u + salt));
    std::shuffle(v.begin(), v.end(), gen);
  }
  template <typename G> void run_range(size_t n, G g) {
    begin();
    std::vector<size_t> v(n);
    std::iota(v.begin(), v.end(), 0);
    order(v, 3);
    for (size_t i : v) {
      sycl_stub::current_item = static_cast<long>(i);
      g(i);
    }
    sycl_stub::end_kernel();
  }
};

template <typename T, int D = 1> class local_accessor {
  std::shared_ptr<sycl_stub::store<T>> s;
 public:
  using value_type = T;
  local_accessor(sycl::range<1> r, handler& h) :
      s(std::make_shared<sycl_stub::store<T>>(r[0])) {
    auto st = s;
    h.group_reset.push_back([st]() {
      std::memset(st->bytes.data(), sycl_stub::poison, st->bytes.size());
      std::fill(st->okernel.begin(), st->okernel.end(), -1);
    });
    h.group_end.push_back([st]() {
      for (size_t i : st->shared_elems) if (st->changed(i)) st->conflict(i);
      st->shared_elems.clear();
    });
    s->local = true;
  }
  T& operator[](size_t i) const { return s->at(i, true); }
  T& operator[](sycl::id<1> i) const { return s->at(i[0], true); }
  size_t size() const { return s->n; }
  T* get_pointer() const { return s->data(); }
};

enum class aspect { fp64, fp16, cpu, gpu };

namespace info {
  enum class device_type { cpu, gpu, accelerator, custom, automatic, host, all };
  namespace device {
    struct name { using return_type = std::string; };
    struct vendor { using return_type = std::string; };
    struct max_work_group_size { using return_type = size_t; };
    struct preferred_vector_width_double { using return_type = unsigned; };
    struct max_compute_units { using return_type = unsigned; };
    struct max_mem_alloc_size { using return_type = uint64_t; };
    struct global_mem_size { using return_type = uint64_t; };
    struct local_mem_size { using return_type = uint64_t; };
  }
}

class device {
 public:
  template <typename I> typename I::return_type get_info() const {
    return typename I::return_type{};
  }
  bool is_cpu() const { return !sycl_stub::gpu_present; }
  bool is_gpu() const { return sycl_stub::gpu_present; }
  bool has(aspect) const { return true; }
  static std::vector<device>
  get_devices(info::device_type t = info::device_type::all) {
    if (t == info::device_type::gpu && !sycl_stub::gpu_present) return {};
    return {device()};
  }
};
struct default_selector {};
struct gpu_selector {};
struct cpu_selector {};
inline int gpu_selector_v(const device&) { return 1; }
inline int cpu_selector_v(const device&) { return 1; }
inline int default_selector_v(const device&) { return 1; }

class event { public: void wait() {} void wait_and_throw() {} };

class queue {
 public:
  queue() {}
  template <typename... A> explicit queue(A&&...) {}
  device get_device() const { return device(); }
  template <typename F> event submit(F f) { handler h; f(h); return event(); }
  template <typename Name = void, typename R, typename F>
  event parallel_for(R r, F f) {
    handler h; h.parallel_for<Name>(r, f); return event();
  }
  void wait() {}
  void wait_and_throw() {}
};

// math builtins
#define VERIF_M1(n) template <typename T> inline T n(T x) { return std::n(x); }
VERIF_M1(trunc) VERIF_M1(floor) VERIF_M1(ceil) VERIF_M1(sqrt) VERIF_M1(fabs)
VERIF_M1(round) VERIF_M1(rint) VERIF_M1(exp) VERIF_M1(log)
#undef VERIF_M1
template <typename T, typename U> inline T fmod(T x, U y) {
  return std::fmod(x, static_cast<T>(y));
}
template <typename T, typename U> inline T pow(T x, U y) {
  return std::pow(x, static_cast<T>(y));
}
template <typename T> inline T fmin(T a, T b) { return std::fmin(a, b); }
template <typename T> inline T fmax(T a, T b) { return std::fmax(a, b); }
template <typename T> inline T min(T a, T b) { return b < a ? b : a; }
template <typename T> inline T max(T a, T b) { return a < b ? b : a; }
template <typename T> inline T abs(T a) { return a < 0 ? -a : a; }
template <typename T> inline T fma(T a, T b, T c) { return std::fma(a, b, c); }
template <typename T> inline T mad(T a, T b, T c) { return a * b + c; }
template <typename T> inline T clamp(T x, T a, T b) {
  return x < a ? a : (b < x ? b : x);
}
template <typename T> inline bool isinf(T x) { return std::isinf(x); }
template <typename T> inline bool isnan(T x) { return std::isnan(x); }
template <typename T> inline bool isfinite(T x) { return std::isfinite(x); }
template <typename T> inline T select(T a, T b, bool c) { return c ? b : a; }

}  // namespace sycl

namespace cl { namespace sycl { using namespace ::sycl; } }

#endif
