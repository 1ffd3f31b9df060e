// Driver for the bounded heap.  A session holds lines
//   HEAP id layout ti k seg nseg v1 v2 ...     or BULK ...
// layout: v = vector, a = device accessor, contiguous, i = device accessor,
// interleaved.  Values are inserted the way the search does it (replace the
// root if smaller, then restore the heap), then the segment is sorted.  BULK:
// only the end is reported (for large segments).
#include "common.hpp"
#include <heap.hpp>
#include <limits>

template <typename Ti, typename Tf> struct vec_t {
  std::vector<Ti> id;
  std::vector<Tf> pq;
  vec_t(size_t n) : id(n), pq(n) {}
  Ti& i(size_t x) { return id[x]; }
  Tf& p(size_t x) { return pq[x]; }
  void heapify(size_t k, size_t seg, size_t) { heap::maxheapify<Ti, Tf>(id, pq, k * seg, k, 0); }
  void sort(size_t k, size_t seg, size_t) { heap::sort<Ti, Tf>(id, pq, k * seg, k); }
};
#ifdef VERIF_STUB
template <typename Ti, typename Tf, bool interleaved> struct acc_t {
  sycl::buffer<Ti, 1> bi;
  sycl::buffer<Tf, 1> bp;
  device_accessor_readwrite_t<Ti> ai;
  device_accessor_readwrite_t<Tf> ap;
  acc_t(size_t n) : bi(sycl::range<1>(n)), bp(sycl::range<1>(n)), ai(bi), ap(bp) {}
  Ti& i(size_t x) { return ai[x]; }
  Tf& p(size_t x) { return ap[x]; }
  void heapify(size_t k, size_t seg, size_t nseg) {
    if constexpr (interleaved) heap::maxheapify<Ti, Tf>(ai, ap, int(nseg), int(seg), int(k), 0);
    else heap::maxheapify<Ti, Tf>(ai, ap, k * seg, k, 0);
  }
  void sort(size_t k, size_t seg, size_t nseg) {
    if constexpr (interleaved) heap::sort<Ti, Tf>(ai, ap, int(nseg), int(seg), int(k));
    else heap::sort<Ti, Tf>(ai, ap, k * seg, k);
  }
};
#endif

template <typename H> static void go(const std::string& id, bool il, size_t k, size_t seg,
                                     size_t nseg, const std::vector<long>& vals, bool bulk) {
  const size_t n = k * nseg;
  H h(n);
  auto pos = [&](size_t j) { return il ? nseg * j + seg : k * seg + j; };
  auto mine = [&](size_t x) { return il ? x % nseg == seg : x / k == seg; };
  for (size_t x = 0; x < n; x++) { h.i(x) = long(100000 + x); h.p(x) = double(x % 7); }
  for (size_t j = 0; j < k; j++) { h.i(pos(j)) = -1 - long(j); h.p(pos(j)) = 1000000; }
  auto outside = [&]() {
    for (size_t x = 0; x < n; x++)
      if (!mine(x) && (h.i(x) != long(100000 + x) || h.p(x) != double(x % 7))) return 0;
    return 1;
  };
  auto dump = [&]() {
    std::string s = "[";
    for (size_t j = 0; j < k; j++)
      s += (j ? ",[" : "[") + std::to_string(long(h.p(pos(j)))) + "," +
           std::to_string(long(h.i(pos(j)))) + "]";
    return s + "]";
  };
  std::ostringstream o;
#ifdef VERIF_STUB
  sycl_stub::faults = sycl_stub::faults_t();
#endif
  o << "{\"id\":" << hx::jstr(id) << ",\"end\":\"return\",\"k\":" << k << ",\"steps\":[";
  int out = 1;
  for (size_t t = 0; t < vals.size(); t++) {
    if (double(vals[t]) < h.p(pos(0))) {
      h.i(pos(0)) = long(t);
      h.p(pos(0)) = double(vals[t]);
      h.heapify(k, seg, nseg);
    }
    if (bulk) continue;
    out = out && outside();
    o << (t ? "," : "") << "[" << vals[t] << "," << t << "," << dump() << "]";
  }
  h.sort(k, seg, nseg);
  out = out && outside();
#ifdef VERIF_STUB
  if (sycl_stub::faults.oob) out = 0;
#endif
  o << "],\"sorted\":" << dump() << ",\"outside\":" << out << "}";
  hx::emit(o.str());
}

static void body(std::istream& in) {
  std::string line, w, id, lay, ty;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    size_t k, seg, nseg;
    ls >> w >> id >> lay >> ty >> k >> seg >> nseg;
    std::vector<long> v;
    long x;
    while (ls >> x) v.push_back(x);
    hx::now_doing(id);
    const bool d = ty == "d";
    if (lay == "v") {
      if (d) go<vec_t<long, double>>(id, false, k, seg, nseg, v, w == "BULK");
      else go<vec_t<int, float>>(id, false, k, seg, nseg, v, w == "BULK");
    }
#ifdef VERIF_STUB
    else if (lay == "a") {
#ifndef NO_CONTIGUOUS_ACCESSOR
      if (d) go<acc_t<long, double, false>>(id, false, k, seg, nseg, v, w == "BULK");
      else go<acc_t<int, float, false>>(id, false, k, seg, nseg, v, w == "BULK");
#endif
    } else {
      if (d) go<acc_t<long, double, true>>(id, true, k, seg, nseg, v, w == "BULK");
      else go<acc_t<int, float, true>>(id, true, k, seg, nseg, v, w == "BULK");
    }
#endif
  }
}

int main(int argc, char** argv) {
  std::ifstream f(argc > 1 ? argv[1] : "/dev/stdin");
  return hx::run_sessions(f, body);
}
