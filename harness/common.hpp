// Shared by the drivers: sessions run in forked children with a deadline, so
// that a crash or an endless loop of the code under test is an observation.
#ifndef VERIF_COMMON
#define VERIF_COMMON
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace hx {

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { std::snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += char(ch);
  }
  return o + "\"";
}
template <typename V> std::string jlist(const V& v) {
  std::ostringstream o;
  o << '[';
  bool first = true;
  for (auto x : v) { if (!first) o << ','; first = false; o << (long long)x; }
  o << ']';
  return o.str();
}

constexpr int result_fd = 200;
struct shared { char id[256]; };
inline shared* sh = nullptr;
inline void now_doing(const std::string& id) {
  std::strncpy(sh->id, id.c_str(), sizeof(sh->id) - 1);
}

// Write all of s to the result fd with write(2): works whatever std::cout is.
inline void emit(const std::string& s0) {
  std::string s = s0 + "\n";
  size_t o = 0;
  while (o < s.size()) {
    ssize_t r = ::write(result_fd, s.data() + o, s.size() - o);
    if (r <= 0) { if (errno == EINTR) continue; _exit(97); }
    o += size_t(r);
  }
}

// Results go to fd 200 (a copy of the original stdout); fd 1 and 2 of the
// children go to /dev/null unless a test redirects them.
inline int run_sessions(std::istream& in,
                        const std::function<void(std::istream&)>& body) {
  sh = static_cast<shared*>(mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (dup2(1, result_fd) < 0) return 98;
  std::string line, word;
  std::vector<std::string> text;
  double deadline = 20;
  int late = 0;
  auto flush = [&]() {
    if (text.empty()) return;
    if (late >= 2) { text.clear(); return; }    // enough to report
    std::string all;
    for (auto& t : text) { all += t; all += '\n'; }
    text.clear();
    std::memset(sh, 0, sizeof(*sh));
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
      FILE* n1 = freopen("/dev/null", "w", stdout); (void)n1;
      struct rlimit rl { 0, 0 };
      setrlimit(RLIMIT_CORE, &rl);
      std::istringstream is(all);
      body(is);
      _exit(0);
    }
    int st = 0;
    bool hung = false;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    useconds_t nap = 200;
    while (true) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      double el = double(t1.tv_sec - t0.tv_sec) + double(t1.tv_nsec - t0.tv_nsec) * 1e-9;
      if (el > deadline) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
      usleep(nap);
      if (nap < 5000) nap *= 2;
    }
    if (hung) {
      late++;
      emit("{\"id\":" + jstr(sh->id) + ",\"end\":\"hang\"}");
    } else if (WIFSIGNALED(st)) {
      emit("{\"id\":" + jstr(sh->id) + ",\"end\":\"crash\",\"sig\":" +
           std::to_string(WTERMSIG(st)) + "}");
    } else if (WEXITSTATUS(st) != 0) {
      emit("{\"id\":" + jstr(sh->id) + ",\"end\":\"crash\",\"exit\":" +
           std::to_string(WEXITSTATUS(st)) + "}");
    }
  };
  while (std::getline(in, line)) {
    if (line.rfind("SESSION", 0) == 0) {
      flush();
      std::istringstream ls(line);
      ls >> word >> deadline;
    } else if (!line.empty()) {
      text.push_back(line);
    }
  }
  flush();
  emit("{\"id\":\"\",\"end\":\"all\"}");
  return 0;
}

}
#endif
