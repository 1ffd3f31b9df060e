// Force-included before src/main.cpp: records what the program hands to the
// library and what it gets back, in the file named by VERIF_CLI_LOG.
#include <votess.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
namespace votess {
template <typename Ti, typename Tf>
class dnn<Ti> verif_tesellate(std::vector<std::array<Tf, 3>>& x, class vtargs a = vtargs(),
                              const enum device d = device::cpu) {
  static const char* keys[] = {"k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking",
    "use_recompute", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"};
  std::string o = "{\"dev\":\"" + std::string(d == device::gpu ? "gpu" : "cpu") + "\",\"par\":[";
  for (int i = 0; i < 10; i++)
    o += (i ? "," : "") + std::to_string(a[keys[i]].template get<long>());
  o += "],\"pts\":[";
  char b[64];
  for (size_t i = 0; i < x.size(); i++)
    for (int j = 0; j < 3; j++) {
      std::snprintf(b, 64, "%s\"%a\"", i + j ? "," : "", double(x[i][j]));
      o += b;
    }
  auto r = tesellate<Ti, Tf>(x, a, d);
  o += "],\"rows\":[";
  for (size_t i = 0; i < r.size(); i++) {
    o += i ? ",[" : "[";
    auto q = r[int(i)];
    for (size_t j = 0; j < q.size(); j++) o += (j ? "," : "") + std::to_string(q[j]);
    o += "]";
  }
  o += "]}\n";
  if (const char* f = std::getenv("VERIF_CLI_LOG")) {
    FILE* h = std::fopen(f, "a");
    std::fputs(o.c_str(), h);
    std::fclose(h);
  }
  return r;
}
}
#define tesellate verif_tesellate
