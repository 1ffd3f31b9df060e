// Driver for the spatial sort.  A session holds lines
//   SORT id ti tf gr S n num eps num eps num eps ...
// A coordinate is num / S, moved by eps (0; +-1: to the next representable
// number; +-2: by a few of them; 3: a denormal instead of zero).
#include "common.hpp"
#include <xyzset.hpp>
#include <cmath>
#include <limits>
#include <map>

template <typename Tf> static Tf coord(long num, long S, long eps) {
  Tf x = Tf(num) / Tf(S);
  const Tf up = std::numeric_limits<Tf>::infinity();
  if (eps == 3) return std::numeric_limits<Tf>::denorm_min();
  for (int t = 0; t < (std::abs(eps) == 2 ? 5 : std::abs(eps)); t++)
    x = std::nextafter(x, eps > 0 ? up : -up);
  return x;
}

template <typename Ti, typename Tf>
static void go(const std::string& id, int gr, long S, size_t n, std::istream& ls) {
  std::vector<std::array<Tf, 3>> pts(n);
  for (auto& q : pts)
    for (auto& x : q) { long a, e; ls >> a >> e; x = coord<Tf>(a, S, e); }
  std::map<std::array<Tf, 3>, std::vector<long>> where;
  for (size_t i = n; i-- > 0;) where[pts[i]].push_back(long(i));
  auto r = xyzset::sort<Ti, Tf>(pts, args::xyzset(gr));
  std::vector<long> perm;
  for (auto& q : pts) {
    auto it = where.find(q);
    if (it == where.end() || it->second.empty()) perm.push_back(-1);
    else { perm.push_back(it->second.back()); it->second.pop_back(); }
  }
  const auto& off = r.second;
  std::string runs = "[";
  bool first = true;
  for (size_t c = 0; c + 1 < off.size(); c++)
    if (off[c] != off[c + 1]) {
      runs += (first ? "[" : ",[") + std::to_string(c) + "," + std::to_string((long long)off[c]) +
              "," + std::to_string((long long)off[c + 1]) + "]";
      first = false;
    }
  runs += "]";
  std::ostringstream o;
  o << "{\"id\":" << hx::jstr(id) << ",\"end\":\"return\",\"perm\":" << hx::jlist(perm)
    << ",\"ids\":" << hx::jlist(r.first) << ",\"runs\":" << runs << ",\"cells\":"
    << long(off.size()) - 1 << ",\"first\":" << (off.empty() ? -1 : (long long)off[0])
    << ",\"last\":" << (off.empty() ? -1 : (long long)off.back()) << "}";
  hx::emit(o.str());
}

static void body(std::istream& in) {
  std::string line, w, id, ti, tf;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    int gr;
    long S;
    size_t n;
    ls >> w >> id >> ti >> tf >> gr >> S >> n;
    hx::now_doing(id);
    const bool d = tf == "double", l = ti == "long";
    if (!d && !l) go<int, float>(id, gr, S, n, ls);
    else if (d && !l) go<int, double>(id, gr, S, n, ls);
    else if (!d && l) go<long, float>(id, gr, S, n, ls);
    else go<long, double>(id, gr, S, n, ls);
  }
}

int main(int argc, char** argv) {
  std::ifstream f(argc > 1 ? argv[1] : "/dev/stdin");
  return hx::run_sessions(f, body);
}
