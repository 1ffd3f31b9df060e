// Histories of parameter sets.  One line per history:
//   ARGS id ; op ; op ...
//   S o key type text | G o key type const? | M o key p key2 | C o p | N o | U o | T o v | L o (locale of the program: 0 classic, 1 digits grouped)
#include <votess.hpp>
#include "common.hpp"
#include <memory>
#include <locale>

struct grouped : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
};

static const char* KEYS[] = {"k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking",
  "use_recompute", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"};

template <typename T> static std::string show(T v) {
  char b[64];
  if constexpr (std::is_same<T, long double>::value) std::snprintf(b, 64, "%La", v);
  else if constexpr (std::is_floating_point<T>::value) std::snprintf(b, 64, "%a", double(v));
  else if constexpr (std::is_unsigned<T>::value) std::snprintf(b, 64, "%llu", (unsigned long long)v);
  else std::snprintf(b, 64, "%lld", (long long)v);
  return b;
}

template <typename R> static void
assign(R&& r, const std::string& t, const std::string& v) {
  if (t == "int") r = std::atoi(v.c_str());
  else if (t == "short") r = short(std::atoi(v.c_str()));
  else if (t == "long") r = std::atol(v.c_str());
  else if (t == "unsigned") r = unsigned(std::strtoul(v.c_str(), nullptr, 10));
  else if (t == "size_t") r = size_t(std::strtoull(v.c_str(), nullptr, 10));
  else if (t == "bool") r = (v == "1");
  else if (t == "float") r = std::strtof(v.c_str(), nullptr);
  else if (t == "ushort") r = (unsigned short)std::atoi(v.c_str());
  else if (t == "llong") r = std::atoll(v.c_str());
  else if (t == "ullong") r = std::strtoull(v.c_str(), nullptr, 10);
  else if (t == "ldouble") r = std::strtold(v.c_str(), nullptr);
  else if (t == "double") r = std::strtod(v.c_str(), nullptr);
  else r = v;
}

template <typename A> static std::string
read(A& a, const std::string& k, const std::string& t, int how) {
#define ONE2(N, T) if (t == #N) { if (how & 1) { T x = a[k]; return show(x); } \
                              return show(a[k].template get<T>()); }
#define ONE(T) if (t == #T) { if (how & 1) { T x = a[k]; return show(x); } \
                              return show(a[k].template get<T>()); }
  ONE(int) ONE(short) ONE(long) ONE(unsigned) ONE(size_t) ONE(bool) ONE(float) ONE(double)
  ONE2(ushort, unsigned short) ONE2(llong, long long) ONE2(ullong, unsigned long long)
  ONE2(ldouble, long double)
#undef ONE2
#undef ONE
  return a[k].template get<std::string>();
}

static void tess(const votess::vtargs& a0, int v) {
  votess::vtargs& a = const_cast<votess::vtargs&>(a0);
  std::vector<std::array<float, 3>> p;
  unsigned s = 99u + unsigned(v);
  for (int i = 0; i < 2 + v % 7; i++) {
    std::array<float, 3> q;
    for (auto& x : q) { s = s * 1664525u + 1013904223u; x = float(1 + (s >> 8) % 4094) / 4096.f; }
    p.push_back(q);
  }
#ifdef VERIF_STUB
  sycl_stub::gpu_present = v % 2 == 0;
#endif
  votess::tesellate<int, float>(p, a, v % 3 ? votess::cpu : votess::gpu);
}

// a key that is no single word is given as % and its bytes in hexadecimal
static std::string plain(const std::string& s) {
  if (s.empty() || s[0] != '%') return s;
  std::string t;
  for (size_t i = 1; i + 1 < s.size(); i += 2)
    t.push_back(char(std::stoi(s.substr(i, 2), nullptr, 16)));
  return t;
}

static void body(std::istream& in) {
  std::string line, w, id;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    ls >> w >> id;
    if (w != "ARGS") continue;
    hx::now_doing(id);
    std::unique_ptr<votess::vtargs> ob[2];
    ob[0] = std::make_unique<votess::vtargs>();
    ob[1] = std::make_unique<votess::vtargs>();
    std::ostringstream sink;
    auto oc = std::cout.rdbuf(sink.rdbuf());
    auto oe = std::cerr.rdbuf(sink.rdbuf());
    std::string out = "{\"id\":" + hx::jstr(id) + ",\"end\":\"return\",\"ev\":[", op;
    bool first = true;
    while (ls >> w) {
      if (w != ";") continue;
      ls >> op;
      std::string key, ty, txt, got, end = "return", exc;
      int o = 0, p = 0;
      ls >> o;
      std::vector<long> fed;
      try {
        if (op == "S") {
          ls >> key >> ty >> txt; key = plain(key);
          if (p = txt.size() % 2, p) assign((*ob[o])[key], ty, txt);
          else { auto& r = (*ob[o])[key]; assign(r, ty, txt); }
        } else if (op == "G") {
          ls >> key >> ty >> p; key = plain(key);
          if (p & 2) { const votess::vtargs& c = *ob[o]; got = read(c, key, ty, p); }
          else got = read(*ob[o], key, ty, p);
        } else if (op == "M") {
          std::string k2;
          ls >> key >> p >> k2; key = plain(key); k2 = plain(k2);
          if (k2.size() % 2) { const votess::vtargs& c = *ob[p]; (*ob[o])[key] = c[k2]; }
          else { auto& r = (*ob[o])[key]; r = (*ob[p])[k2]; }
        } else if (op == "C") {
          ls >> p;
          if (id.size() % 2) *ob[p] = *ob[o];
          else ob[p] = std::make_unique<votess::vtargs>(*ob[o]);
        } else if (op == "N") ob[o] = std::make_unique<votess::vtargs>();
        else if (op == "L")
          std::locale::global(o ? std::locale(std::locale::classic(), new grouped)
                                : std::locale::classic());
        else if (op == "U") {
          auto x = ob[o]->get_xyzset(); auto k = ob[o]->get_knn(); auto c = ob[o]->get_cc();
          fed = {x.grid_resolution, k.k, k.grid_resolution, c.k, c.p_maxsize, c.t_maxsize};
        } else if (op == "T") { ls >> p; tess(*ob[o], p); }
      } catch (const std::exception& e) { end = "throw"; exc = e.what(); }
      std::string dump = "[";
      for (int q = 0; q < 2; q++) {
        dump += q ? ",[" : "[";
        for (int k = 0; k < 10; k++) {
          std::string v;
          try { v = show((*ob[q])[KEYS[k]].get<double>()); }
          catch (const std::exception&) { v = "?"; }
          dump += (k ? "," : "") + hx::jstr(v);
        }
        dump += "]";
      }
      out += std::string(first ? "" : ",") + "{\"end\":\"" + end + "\",\"exc\":" + hx::jstr(exc) +
        ",\"got\":" + hx::jstr(got) + ",\"fed\":" + hx::jlist(fed) + ",\"dump\":" + dump + "]}";
      first = false;
    }
    std::locale::global(std::locale::classic());
    std::cout.rdbuf(oc);
    std::cerr.rdbuf(oe);
    hx::emit(out + "]}");
  }
}

int main(int argc, char** argv) {
  std::ifstream f(argc > 1 ? argv[1] : "/dev/stdin");
  return hx::run_sessions(f, body);
}
