// Driver for whole tessellation calls.  Reads sessions (see common.hpp) made of
//   TESS id ti tf dev gpu order sched rec fmt S n nargs
//   A key type value        (nargs lines)
//   P coords...             (one line)
// and writes one JSON line per call: which input point ended up where, the
// rows, the captured output, device faults and (with VOTESS_TRACE) the events.
#include <votess.hpp>
#include "common.hpp"
#include <map>

struct caseinfo {
  std::string id, ti, tf, fmt;
  int dev, gpu;
  unsigned order;
  unsigned long sched;
  int rec;
  long S;
  size_t n;
  int nargs;
};

static void set_arg(votess::vtargs& a, const std::string& k,
                    const std::string& t, const std::string& v) {
  if (t == "i") a[k] = std::atoi(v.c_str());
  else if (t == "l") a[k] = std::atol(v.c_str());
  else if (t == "d") a[k] = std::atof(v.c_str());
  else if (t == "b") a[k] = (v == "1");
  else a[k] = v;
}

template <typename Tf> static std::array<Tf, 3>
coord(const std::string& fmt, long S, std::istream& is) {
  std::array<Tf, 3> r;
  std::string w;
  for (auto& x : r) {
    is >> w;
    if (fmt == "L") x = Tf(std::atol(w.c_str())) / Tf(S);
    else x = Tf(std::strtod(w.c_str(), nullptr));
  }
  return r;
}

template <typename Ti, typename Tf>
static void go(const caseinfo& ci, votess::vtargs args, std::istream& is,
               std::vector<std::string> keys) {
  std::vector<std::array<Tf, 3>> pts(ci.n);
  for (auto& q : pts) q = coord<Tf>(ci.fmt, ci.S, is);
  const auto before = pts;

  std::map<std::array<Tf, 3>, std::vector<long>> where;
  for (size_t i = before.size(); i-- > 0;) where[before[i]].push_back(long(i));

  std::map<std::string, std::string> argtext;
  for (auto& k : keys) argtext[k] = args[k].template get<std::string>();

#ifdef VERIF_STUB
  sycl_stub::faults = sycl_stub::faults_t();
  sycl_stub::gpu_present = ci.gpu != 0;
  sycl_stub::order_seed = ci.order;
  const unsigned char fillers[] = {0xA5, 0x00, 0xFF, 0x3E, 0x01, 0x42};
  sycl_stub::poison = fillers[(ci.order / 3) % 6];
  long k0 = sycl_stub::kernels_run;
#endif
#ifdef VOTESS_TRACE
  votess_trace::log.clear();
  votess_trace::recording = ci.rec != 0;
  votess_trace::lists = ci.rec > 1;
  votess_trace::sched_seed = ci.sched;
  votess_trace::next_worker = 0;
#endif

  std::ostringstream cap, ecap;
  std::streambuf* mine = cap.rdbuf();
  std::streambuf* old = std::cout.rdbuf(mine);
  std::streambuf* olde = std::cerr.rdbuf(ecap.rdbuf());
  std::string exc;
  bool ok = true;
  std::string rows = "[", via = "ok";
  try {
    auto d = votess::tesellate<Ti, Tf>(pts, args, ci.dev ? votess::gpu : votess::cpu);
    if (std::cout.rdbuf() != mine) via = "stream not restored";
    if (d.size() != pts.size()) via = "wrong number of rows";
    else {
      // rows as a user reads them, and as stored
      bool wf = d.offs.size() == pts.size() + 1 && d.offs[0] == 0 &&
                size_t(d.offs[pts.size()]) == d.list.size();
      for (size_t i = 0; wf && i < pts.size(); i++) wf = d.offs[i] <= d.offs[i + 1];
      if (!wf) via = "offsets do not partition the list";
      for (size_t i = 0; wf && i < pts.size(); i++) {
        auto r = d[int(i)];
        std::vector<long> v;
        if (r.size() > d.list.size()) { via = "row size out of range"; break; }
        for (size_t j = 0; j < r.size(); j++) v.push_back(long(r[j]));
        std::vector<long> w(d.list.begin() + long(d.offs[i]), d.list.begin() + long(d.offs[i + 1]));
        if (v != w) via = "row access differs from the stored list";
        rows += (i ? "," : "") + hx::jlist(v);
      }
    }
  } catch (const std::exception& e) {
    ok = false; exc = e.what();
    if (std::cout.rdbuf() != mine) via = "stream not restored";
  }
  rows += "]";
  std::cout.rdbuf(old);
  std::cerr.rdbuf(olde);

  std::vector<long> perm;
  for (auto& q : pts) {
    auto it = where.find(q);
    if (it == where.end() || it->second.empty()) perm.push_back(-1);
    else { perm.push_back(it->second.back()); it->second.pop_back(); }
  }
  bool same = true;
  for (auto& k : keys)
    same = same && argtext[k] == args[k].template get<std::string>();

  std::ostringstream o;
  o << "{\"id\":" << hx::jstr(ci.id) << ",\"end\":\"" << (ok ? "return" : "throw")
    << "\",\"exc\":" << hx::jstr(exc) << ",\"via\":" << hx::jstr(via)
    << ",\"perm\":" << hx::jlist(perm) << ",\"rows\":" << rows
    << ",\"out\":" << hx::jstr(cap.str()) << ",\"err\":" << hx::jstr(ecap.str())
    << ",\"args_kept\":" << (same ? 1 : 0);
#ifdef VERIF_STUB
  o << ",\"dev\":{\"conflicts\":" << sycl_stub::faults.conflicts << ",\"oob\":"
    << sycl_stub::faults.oob << ",\"kernels\":" << sycl_stub::kernels_run - k0
    << ",\"first\":" << hx::jstr(sycl_stub::faults.first) << "}";
#endif
#ifdef VOTESS_TRACE
  votess_trace::recording = false;
  o << ",\"bits\":[" << (1 << cc::security_radius_reached) << ','
    << (1 << cc::error_p_overflow) << ',' << (1 << cc::error_t_overflow) << "]";
  o << ",\"ev\":[";
  bool first = true;
  for (auto& e : votess_trace::log) {
    if (!first) o << ',';
    first = false;
    o << "[\"" << e.kind << "\"," << e.worker << ',' << e.a << ',' << e.b << ','
      << hx::jlist(e.list) << ']';
  }
  o << "]";
#endif
  o << "}";
  hx::emit(o.str());
}

static void body(std::istream& in) {
  std::string line, w;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    caseinfo ci;
    ls >> w >> ci.id >> ci.ti >> ci.tf >> ci.dev >> ci.gpu >> ci.order >>
      ci.sched >> ci.rec >> ci.fmt >> ci.S >> ci.n >> ci.nargs;
    if (w != "TESS") continue;
    votess::vtargs args;
    std::vector<std::string> keys;
    for (int i = 0; i < ci.nargs; i++) {
      std::getline(in, line);
      std::istringstream as(line);
      std::string a, k, t, v;
      as >> a >> k >> t >> v;
      set_arg(args, k, t, v);
      keys.push_back(k);
    }
    std::getline(in, line);
    std::istringstream ps(line);
    ps >> w;
    hx::now_doing(ci.id);
#ifdef VERIF_TYPES
    if (ci.ti == "short") go<short, double>(ci, args, ps, keys);
    else if (ci.ti == "llong") go<long long, float>(ci, args, ps, keys);
    else go<int, long double>(ci, args, ps, keys);
#else
    const bool d = ci.tf == "double", l = ci.ti == "long";
    if (!d && !l) go<int, float>(ci, args, ps, keys);
    else if (d && !l) go<int, double>(ci, args, ps, keys);
#ifndef VERIF_SMALL
    else if (!d && l) go<long, float>(ci, args, ps, keys);
    else go<long, double>(ci, args, ps, keys);
#endif
#endif
  }
}

int main(int argc, char** argv) {
  std::ifstream f(argc > 1 ? argv[1] : "/dev/stdin");
  return hx::run_sessions(f, body);
}
