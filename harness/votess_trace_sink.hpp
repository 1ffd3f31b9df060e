// Sink for VOTESS_TRACE_EVENT: keeps the events of a call in order, and uses
// the same points to perturb the schedule of the workers (VERIF: sched_seed).
#ifndef VOTESS_TRACE_SINK
#define VOTESS_TRACE_SINK
#include <atomic>
#include <chrono>
#include <cstdint>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace votess_trace {

struct event {
  char kind;              // C call, R/Q round (chunk/recompute), T take,
                          // F found, S cell state, M commit
  int worker;
  long a = 0, b = 0;
  std::vector<long> list;
};

inline std::mutex mu;
inline std::vector<event> log;
inline std::atomic<int> next_worker{0};
inline bool recording = false;
inline bool lists = false;          // keep candidate lists
inline uint64_t sched_seed = 0;

inline int me() {
  thread_local int id = -1;
  if (id < 0) id = next_worker++;
  return id;
}

inline void perturb(uint64_t salt) {
  if (!sched_seed) return;
  thread_local uint64_t s = 0;
  if (!s) s = sched_seed * 0x9E3779B97F4A7C15ull + uint64_t(me() + 1) * 0xBF58476D1CE4E5B9ull;
  s ^= s << 13; s ^= s >> 7; s ^= s << 17; s += salt;
  switch (s % 8) {
    case 0: std::this_thread::sleep_for(std::chrono::microseconds((s >> 8) % 300)); break;
    case 1: case 2: std::this_thread::yield(); break;
    default: break;
  }
}

inline void put(event e) {
  if (!recording) return;
  std::lock_guard<std::mutex> g(mu);
  e.worker = me();
  log.push_back(std::move(e));
}

template <typename N> void call(N n) { put({'C', 0, long(n), 0, {}}); }
template <typename I, typename N, typename K>
void round(const char* kind, const I* idx, N n, K k) {
  event e{kind[0] == 'c' ? 'R' : 'Q', 0, long(n), long(k), {}};
  if (recording) e.list.assign(idx, idx + n);
  put(std::move(e));
}
template <typename N, typename I> void take(N slot, I index) {
  perturb(1);
  put({'T', 0, long(index), long(slot), {}});
}
template <typename I, typename J, typename K>
void found(I index, const J* ids, K k) {
  event e{'F', 0, long(index), long(k), {}};
  if (recording && lists) e.list.assign(ids, ids + k);
  put(std::move(e));
  perturb(2);
}
template <typename I> void cell(I index, unsigned byte) {
  put({'S', 0, long(index), long(byte), {}});
  perturb(3);
}
template <typename I, typename N> void commit(const I* idx, N n) {
  event e{'M', 0, long(n), 0, {}};
  if (recording) e.list.assign(idx, idx + n);
  put(std::move(e));
}

}
#endif
