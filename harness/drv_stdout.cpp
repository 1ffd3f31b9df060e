// Histories of calls around which the caller uses std::cout.
//   HIST id op op ...     op: push void pop break mend say quiet:v loud:v quiet-fail:v loud-fail:v
// v selects parameters of the call.  One JSON line per history.
#include <votess.hpp>
#include "common.hpp"
#include <memory>

static off_t fdsize() {
  std::fflush(stdout);
  return lseek(1, 0, SEEK_END);
}

template <typename Ti, typename Tf> static void
tess(int v, votess::vtargs a, bool gpu) {
  std::vector<std::array<Tf, 3>> p;
  const int n = v % 7 == 6 ? 0 : 3 + v % 5;
  unsigned s = 12345u + unsigned(v);
  for (int i = 0; i < n; i++) {
    std::array<Tf, 3> q;
    for (auto& x : q) { s = s * 1664525u + 1013904223u; x = Tf(1 + (s >> 8) % 4094) / Tf(4096); }
    p.push_back(q);
  }
  auto d = votess::tesellate<Ti, Tf>(p, a, gpu ? votess::gpu : votess::cpu);
  if (d.size() != p.size()) _exit(90);
}

static void call(const std::string& op, int v) {
  const bool quiet = op.rfind("quiet", 0) == 0, fail = op.find("fail") != std::string::npos;
  votess::vtargs a;
  if (!quiet) {
    if (v % 3 == 0) a["dev_suppress_stdout"] = false; else a["dev_suppress_stdout"] = 0;
  } else if (v % 3 == 1) a["dev_suppress_stdout"] = true;
  else if (v % 3 == 2) a["dev_suppress_stdout"] = 1;
  a["k"] = 1 + v % 4;
  a["knn_grid_resolution"] = 1 + v % 3;
  a["cpu_nthreads"] = v % 4;
  if (v / 2 % 2) { a["use_chunking"] = true; a["chunksize"] = 2; }
  if (v / 3 % 2) a["use_recompute"] = true;
  if (fail) switch (v / 5 % 5) {
    case 0: a["k"] = std::string("abc"); break;
    case 1: a["knn_grid_resolution"] = std::string("x"); break;
    case 2: a["cc_p_maxsize"] = std::string("?"); break;
    case 3: a["use_chunking"] = true; a["chunksize"] = std::string("many"); break;
    case 4: a["cc_t_maxsize"] = std::string("-"); break;
  }
  const bool gpu = v / 4 % 3 == 2;
#ifdef VERIF_STUB
  sycl_stub::gpu_present = v % 2 == 0;
#endif
  if (v % 2) tess<int, float>(v, a, gpu); else tess<int, double>(v, a, gpu);
}

static void body(std::istream& in) {
  std::string line, w, id;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    ls >> w >> id;
    if (w != "HIST") continue;
    hx::now_doing(id);
    int fd = memfd_create("out", 0);
    if (fd < 0 || dup2(fd, 1) < 0) _exit(96);
    close(fd);
    std::ostringstream errs;
    std::streambuf* olderr = std::cerr.rdbuf(errs.rdbuf());
    std::vector<std::unique_ptr<std::ostringstream>> bufs;   // caller's own
    std::vector<std::streambuf*> place{std::cout.rdbuf()};
    std::vector<size_t> had{size_t(fdsize()), 0, 0, 0, 0, 0, 0};
    std::vector<std::string> ops;
    std::string op, out = "{\"id\":" + hx::jstr(id) + ",\"end\":\"return\",\"ev\":[";
    bool first = true;
    while (ls >> op) {
      int v = 0;
      auto c = op.find(':');
      if (c != std::string::npos) { v = std::atoi(op.c_str() + c + 1); op.resize(c); }
      if (op == "push" && v % 2) { std::cout << std::hex; std::cout.precision(3 + v % 5); }
      const auto fl = std::cout.flags();
      const auto pr = std::cout.precision();
      const auto fi = std::cout.fill();
      const auto st = std::cout.rdstate();
      const auto ex = std::cout.exceptions();
      const auto ti = std::cout.tie();
      const auto lo = std::cout.getloc();
      if (op.rfind("quiet", 0) == 0 && v % 3 == 0) std::cout.width(2 + v % 9);
      const auto wi = std::cout.width();
      std::string end = "return", exc;
      long said = 0;
      if (op == "push") {
        bufs.push_back(std::make_unique<std::ostringstream>());
        std::cout.rdbuf(bufs.back()->rdbuf());
        place.push_back(bufs.back()->rdbuf());
        had[place.size() - 1] = 0;
      } else if (op == "pop") {
        place.pop_back();
        try { std::cout.rdbuf(place.back()); } catch (const std::ios_base::failure&) {}
      } else if (op == "void") {
        bufs.push_back(std::make_unique<std::ostringstream>());
        place.push_back(nullptr);
        had[place.size() - 1] = 0;
        try { std::cout.rdbuf(nullptr); } catch (const std::ios_base::failure&) {}
      } else if (op == "break") {
        if (v % 5 == 4)
          try { std::cout.exceptions(std::ios::failbit | std::ios::badbit); }
          catch (const std::ios_base::failure&) {}
        const std::ios::iostate how[4] = {std::ios::failbit, std::ios::eofbit, std::ios::badbit,
                                          std::ios::failbit | std::ios::eofbit};
        try { std::cout.setstate(how[v % 4]); } catch (const std::ios_base::failure&) {}
      } else if (op == "mend") {
        try { std::cout.clear(); } catch (const std::ios_base::failure&) {}
      } else if (op == "say") {
        std::string t = "caller " + std::to_string(v) + "\n";
        said = long(t.size());
        try { std::cout << t << std::flush; } catch (const std::ios_base::failure&) {}
      } else {
        try { call(op, v); }
        catch (const std::exception& e) { end = "throw"; exc = e.what(); }
        catch (...) { end = "throw"; exc = "?"; }
      }
      int cur = -1;
      for (size_t i = 0; i < place.size(); i++) if (std::cout.rdbuf() == place[i]) cur = int(i);
      const bool same = fl == std::cout.flags() && pr == std::cout.precision() &&
        fi == std::cout.fill() && ti == std::cout.tie() && lo == std::cout.getloc() &&
        (op.rfind("quiet", 0) != 0 || wi == std::cout.width()) &&
        (op.rfind("quiet", 0) != 0 && op.rfind("loud", 0) != 0 ? true :
         ex == std::cout.exceptions() &&
           (st == std::cout.rdstate() || (op[0] == 'l' && st && std::cout.rdstate())));
      std::cout.width(0);
      const bool bad = std::cout.rdstate() != std::ios::goodbit;
      std::vector<long> got;
      bool report = false;
      std::string text;
      for (size_t i = 0; i < place.size(); i++) {
        size_t now = i == 0 ? size_t(fdsize()) : bufs[i - 1]->str().size();
        got.push_back(long(now) - long(had[i]));
        if (now > had[i]) {
          if (i == 0) {
            text.resize(now - had[i]);
            if (pread(1, &text[0], text.size(), off_t(had[i])) < 0) text.clear();
          } else text = bufs[i - 1]->str().substr(had[i]);
          // the three counts and, where there are points, something before them
          const auto at = text.find("sradius");
          if (at != std::string::npos && text.find("p overflow") != std::string::npos &&
              text.find("t overflow") != std::string::npos && (v % 7 == 6 || at > 12)) report = true;
        }
        had[i] = now;
      }
      if (op == "pop") bufs.pop_back();
      std::string base = op.substr(0, op.find('-'));
      out += std::string(first ? "" : ",") + "{\"op\":" + hx::jstr(base) + ",\"v\":" +
        std::to_string(v) + ",\"fail\":" + (op.find("fail") != std::string::npos ? "true" : "false") +
        ",\"end\":\"" + end + "\",\"exc\":" + hx::jstr(exc) + ",\"cur\":" + std::to_string(cur) +
        ",\"same\":" + (same ? "true" : "false") +
        ",\"bad\":" + (bad ? "true" : "false") + ",\"report\":" + (report ? "true" : "false") +
        ",\"said\":" + std::to_string(said) + ",\"got\":" + hx::jlist(got) + "}";
      first = false;
      if (cur < 0) break;
    }
    try { std::cout.exceptions(std::ios::goodbit); } catch (const std::ios_base::failure&) {}
    std::cout.rdbuf(place[0]);
    std::cout.copyfmt(std::ios(nullptr));
    std::cout.clear();
    std::cerr.rdbuf(olderr);
    hx::emit(out + "]}");
  }
}

int main(int argc, char** argv) {
  std::ifstream f(argc > 1 ? argv[1] : "/dev/stdin");
  return hx::run_sessions(f, body);
}
