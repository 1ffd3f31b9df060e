// The result container.
//   DNN id ti how nrows len.. values.. nedits (i j v)..
//   RES id n k gr rec seed          (a tessellation result)
#include <votess.hpp>
#include "common.hpp"

#include <locale>

struct grouped : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};

static std::string dir;

template <typename Ti> static std::string look(votess::dnn<Ti>& d, const std::vector<long>& edit) {
  std::string o = "{\"edit\":" + hx::jlist(edit) + ",\"size\":" + std::to_string(d.size()) +
    ",\"list\":" + hx::jlist(d.list) + ",\"offs\":" + hx::jlist(d.offs);
  const votess::dnn<Ti>& c = d;
  std::string a = "[", b = "[";
  for (size_t i = 0; i < d.size(); i++) {
    std::vector<long> v, w;
    auto r = d[int(i)];
    for (size_t j = 0; j < r.size() && j < 100000; j++) v.push_back(long(r[j]));
#ifdef NO_CONST_ROWS
    w.push_back(-999999);          // rows of a const container can not be read
#else
    const auto q = c[int(i)];
    for (size_t j = 0; j < q.size() && j < 100000; j++) w.push_back(long(q[j]));
#endif
    a += (i ? "," : "") + hx::jlist(v);
    b += (i ? "," : "") + hx::jlist(w);
  }
  std::ostringstream cap;
  auto old = std::cout.rdbuf(cap.rdbuf());
  c.print();
  std::cout.rdbuf(old);
  const std::string f = dir + "/saved.txt";
  {                                     // there may be an older, longer file
    std::ofstream g(f);
    g << "9 9 9 9 9 9\n9\n9\n9\n9\n9\n9\n9\n9\n9\n";
  }
  // every other time in a program whose locale groups digits
  static int turn = 0;
  if (turn++ % 2) std::locale::global(std::locale(std::locale::classic(), new grouped));
  c.savetxt(f);
  std::locale::global(std::locale::classic());
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  std::remove(f.c_str());
  // a file that can not be opened is no reason to fail
  std::ostringstream err;
  auto olde = std::cerr.rdbuf(err.rdbuf());
  c.savetxt(dir + "/none/saved.txt");
  std::cerr.rdbuf(olde);
  return o + ",\"rows\":" + a + "],\"crows\":" + b + "],\"print\":" + hx::jstr(cap.str()) +
    ",\"save\":" + hx::jstr(ss.str()) + "}";
}

template <typename Ti> static void dnn(const std::string& id, const std::string& how, std::istream& ls) {
  size_t n, e;
  ls >> n;
  std::vector<Ti> list, offs(n + 1, 0);
  for (size_t i = 0; i < n; i++) { long x; ls >> x; offs[i + 1] = Ti(offs[i] + x); }
  for (long i = 0; i < long(offs[n]); i++) { long x; ls >> x; list.push_back(Ti(x)); }
  std::string out;
  auto go = [&](votess::dnn<Ti>& d) {
    out = look(d, {});
    ls >> e;
    for (size_t q = 0; q < e; q++) {
      long i, j, v;
      ls >> i >> j >> v;
      d[int(i)][size_t(j)] = Ti(v);
      out += "," + look(d, {i, j, v});
    }
  };
  if (how == "default") { votess::dnn<Ti> d; go(d); }
  else if (how == "copy") {
    votess::dnn<Ti> d(list, offs);
    for (auto& x : list) x = -7;              // the container has its own
    go(d);
  } else if (how == "move") { votess::dnn<Ti> d(std::move(list), std::move(offs)); go(d); }
  else if (how == "copied") {
    votess::dnn<Ti> d0(list, offs), d(d0);
    for (auto& x : d0.list) x = -7;
    go(d);
  } else {
    votess::dnn<Ti> d, d0(list, offs);
    d = std::move(d0);
    go(d);
  }
  hx::emit("{\"id\":" + hx::jstr(id) + ",\"end\":\"return\",\"looks\":[" + out + "]}");
}

static void res(const std::string& id, std::istream& ls) {
  int n, k, gr, rec;
  unsigned s;
  ls >> n >> k >> gr >> rec >> s;
  std::vector<std::array<float, 3>> p;
  for (int i = 0; i < n; i++) {
    std::array<float, 3> q;
    for (auto& x : q) { s = s * 1664525u + 1013904223u; x = float(1 + (s >> 8) % 4094) / 4096.f; }
    p.push_back(q);
  }
  votess::vtargs a;
  a["k"] = k;
  a["knn_grid_resolution"] = gr;
  a["use_recompute"] = rec != 0;
  a["cc_p_maxsize"] = 10 + rec * 50;
  auto d = votess::tesellate<int, float>(p, a, votess::cpu);
  std::string out = look(d, {});
  hx::emit("{\"id\":" + hx::jstr(id) + ",\"end\":\"return\",\"looks\":[" + out + "]}");
}

static void body(std::istream& in) {
  std::string line, w, id, ti, how;
  const char* base = std::getenv("TMPDIR");
  std::string t = std::string(base ? base : "/tmp") + "/dnn-XXXXXX";
  if (!mkdtemp(&t[0])) _exit(95);
  dir = t;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    ls >> w >> id;
    hx::now_doing(id);
    if (w == "RES") { res(id, ls); continue; }
    if (w != "DNN") continue;
    ls >> ti >> how;
    if (ti == "int") dnn<int>(id, how, ls);
    else if (ti == "long") dnn<long>(id, how, ls);
    else dnn<short>(id, how, ls);
  }
  rmdir(dir.c_str());
}

int main(int argc, char** argv) {
  std::ifstream f(argc > 1 ? argv[1] : "/dev/stdin");
  return hx::run_sessions(f, body);
}
