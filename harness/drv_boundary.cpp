// Driver for hole stitching.  A session holds lines
//   BND id layout dr_offs dr_size r_offs ntri t00 t01 t02 t10 ...
// layout: p = pointers, a = device accessors; P, A: with room behind the
// storage (triangles no cell has may make the step look there).
#include "common.hpp"
#include <boundary.hpp>

static void report(const std::string& id, int status, const std::vector<long>& cyc, int guard,
                   const std::vector<long>& tris) {
  std::ostringstream o;
  o << "{\"id\":" << hx::jstr(id) << ",\"end\":\"return\",\"status\":" << status
    << ",\"cycle\":" << hx::jlist(cyc) << ",\"guard\":" << guard << ",\"tris\":"
    << hx::jlist(tris) << "}";
  hx::emit(o.str());
}

template <typename C, typename R>
static void finish(const std::string& id, int st, C&& cycle, R&& tri, long do_, long ds, long ro,
                   long nt, long csize, long rsize, short head, int guard) {
  std::vector<long> cyc, ts;
  for (long x = 0; x < csize; x++)
    if ((x < do_ || x >= do_ + ds) && cycle(x) != 0xAB) guard = 0;
  for (long x = 0; x < rsize; x++)
    if ((x < ro || x >= ro + 3 * nt) && tri(x) != 0xCD) guard = 0;
  for (long x = 0; x < 3 * nt; x++) ts.push_back(tri(ro + x));
  if (st == boundary::bstatus::success) {
    long e = head;
    for (int n = 0; n < 600; n++) {
      if (e < 0 || e >= ds) { cyc.push_back(-1); break; }
      cyc.push_back(e);
      e = cycle(do_ + e);
      if (e == head) break;
    }
  }
  report(id, st == boundary::bstatus::success ? 0 : 1, cyc, guard, ts);
}

static void body(std::istream& in) {
  std::string line, w, id, lay;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    long doff, ds, ro, nt;
    ls >> w >> id >> lay >> doff >> ds >> ro >> nt;
    std::vector<long> t(size_t(3 * nt));
    for (auto& x : t) ls >> x;
    hx::now_doing(id);
    const long pad = lay == "P" || lay == "A" ? 300 : 9;
    const long csize = doff + ds + pad, rsize = ro + 3 * nt + 9;
    short head = -1;
    if (lay == "p" || lay == "P") {
      std::vector<uint8_t> c(size_t(csize), 0xAB), r(size_t(rsize), 0xCD);
      for (long x = 0; x < ds; x++) c[size_t(doff + x)] = 0xff;
      for (size_t x = 0; x < t.size(); x++) r[size_t(ro) + x] = uint8_t(t[x]);
      int st = boundary::compute<int, uint8_t>(c.data(), int(doff), int(ds), head, r.data(),
                                               int(ro), int(nt));
      finish(id, st, [&](long x) { return long(c[size_t(x)]); },
             [&](long x) { return long(r[size_t(x)]); }, doff, ds, ro, nt, csize, rsize, head, 1);
    }
#ifdef VERIF_STUB
    else {
      sycl_stub::faults = sycl_stub::faults_t();
      sycl::handler h;
      sycl::local_accessor<uint8_t, 1> c(sycl::range<1>(size_t(csize)), h);
      sycl::buffer<uint8_t, 1> b{sycl::range<1>(size_t(rsize))};
      device_accessor_readwrite_t<uint8_t> r(b);
      for (long x = 0; x < csize; x++)
        c[size_t(x)] = x >= doff && x < doff + ds ? 0xff : 0xAB;
      for (long x = 0; x < rsize; x++) r[size_t(x)] = 0xCD;
      for (size_t x = 0; x < t.size(); x++) r[size_t(ro) + x] = uint8_t(t[x]);
      int st = boundary::compute<int, uint8_t>(c, int(doff), int(ds), head, r, int(ro), int(nt));
      finish(id, st, [&](long x) { return long(c[size_t(x)]); },
             [&](long x) { return long(r[size_t(x)]); }, doff, ds, ro, nt, csize, rsize, head,
             sycl_stub::faults.oob ? 0 : 1);
    }
#endif
  }
}

int main(int argc, char** argv) {
  std::ifstream f(argc > 1 ? argv[1] : "/dev/stdin");
  return hx::run_sessions(f, body);
}
