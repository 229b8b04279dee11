// Drives the real BlockQueue under the deterministic scheduler.
// usage: queue_drv SCENARIOS OUT SEED DFS RANDOM PREEMPT SPURIOUS [replay-prefix]
// scenario line:  cap|ops of thread 1|ops of thread 2|...
//   pN put N; PN,N,.. put list; t take; TN list take of up to N; FN forced list take of N; y non-blocking take;
//   0 stands for the null element.
#include <sol/util/block_queue.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include "detsched.h"

typedef const char* Elem;
typedef sol::BlockQueue<Elem> Queue;
static Elem E(long v) { return v == 0 ? nullptr : (Elem)(v * 16); }
static long V(Elem e) { return e == nullptr ? 0 : (long)((long)e / 16); }

template <typename Q> static auto Try(Q* q, Elem& e, int) -> decltype(q->TryDequeue(e)) { return q->TryDequeue(e); }
template <typename Q> static bool Try(Q*, Elem&, long) { return false; }
template <typename Q> static auto HasTry(Q* q, int) -> decltype(q->TryDequeue(*(Elem*)0), true) { return true; }
template <typename Q> static bool HasTry(Q*, long) { return false; }

struct Op { char k; std::vector<int> v; int n; };
struct Scenario { int cap; std::vector<std::vector<Op>> th; };

static Scenario Parse(const std::string& line) {
  Scenario s; std::stringstream ss(line); std::string part;
  std::getline(ss, part, '|'); s.cap = atoi(part.c_str());
  while (std::getline(ss, part, '|')) {
    std::vector<Op> ops; std::stringstream ps(part); std::string w;
    while (ps >> w) {
      Op o; o.k = w[0]; o.n = 0;
      std::stringstream as(w.substr(1)); std::string a;
      if (o.k == 'p' || o.k == 'P') { while (std::getline(as, a, ',')) o.v.push_back(atoi(a.c_str())); }
      else if (o.k != 't' && o.k != 'y') o.n = atoi(w.c_str() + 1);
      ops.push_back(o);
    }
    s.th.push_back(ops);
  }
  return s;
}

static std::string List(const std::vector<long>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += std::to_string(v[i]); }
  return r + "]";
}

static void RunOps(Queue* q, int t, const std::vector<Op>& ops) {
  for (const Op& o : ops) {
    if (o.k == 'y' && !HasTry(q, 0)) continue;
    std::vector<long> a(o.v.begin(), o.v.end());
    vs::Log("{\"e\":\"call\",\"t\":%d,\"op\":\"%c\",\"v\":%s,\"n\":%d}", t, o.k, List(a).c_str(), o.n);
    std::vector<long> r;
    int cnt = 0;
    if (o.k == 'p') { q->Enqueue(E(o.v[0])); }
    else if (o.k == 'P') { Elem buf[16]; for (size_t i = 0; i < o.v.size(); ++i) buf[i] = E(o.v[i]); q->Enqueue(buf, (int)o.v.size()); }
    else if (o.k == 'y') { Elem e = E(98); if (Try(q, e, 0)) { r.push_back(V(e)); cnt = 1; } }
    else if (o.k == 't') { r.push_back(V(q->Dequeue())); cnt = 1; }
    else {
      Elem buf[16]; for (int i = 0; i < 16; ++i) buf[i] = E(99);
      cnt = q->Dequeue(buf, o.n, o.k == 'F');
      for (int i = 0; i < cnt && i < 16; ++i) r.push_back(V(buf[i]));
    }
    vs::Log("{\"e\":\"ret\",\"t\":%d,\"op\":\"%c\",\"v\":%s,\"n\":%d}", t, o.k, List(r).c_str(), cnt);
  }
}

int main(int argc, char** argv) {
  if (argc < 8) return 2;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]);
  uint64_t seed = strtoull(argv[3], 0, 10);
  long dfs = atol(argv[4]), rnd = atol(argv[5]);
  vs::Config cfg; cfg.preemptions = atoi(argv[6]); cfg.spurious = atoi(argv[7]);
  std::string line; int idx = 0; long total = 0, exhausted = 0;
  std::set<std::string> seen;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    ++idx;
    Scenario s = Parse(line);
    auto body = [&s]() {
      Queue* q = new Queue(s.cap);
      vs::Log("{\"e\":\"size\",\"t\":0,\"n\":%d,\"op\":\"%s\",\"v\":[%d]}", q->size(), q->empty() ? "y" : "n", q->capacity());
      std::vector<void*> h(s.th.size());
      for (size_t i = 0; i < s.th.size(); ++i) {
        const std::vector<Op>* ops = &s.th[i];
        vs::Spawn([q, i, ops]() { RunOps(q, (int)i + 1, *ops); }, &h[i]);
      }
      for (void* p : h) vs::JoinSpawned(p);
      vs::Log("{\"e\":\"size\",\"t\":0,\"n\":%d,\"op\":\"%s\",\"v\":[%d]}", q->size(), q->empty() ? "y" : "n", q->capacity());
      delete q;
    };
    int endless = 0;
    auto visit = [&](const vs::RunResult& r) {
      bool hang = r.outcome != vs::kFinished && r.outcome != vs::kDeadlock && r.outcome != vs::kCrash;
      std::string ev = hang && r.log.size() > 30000 ? r.log.substr(0, r.log.find('\n', 30000) + 1) : r.log;
      bool more = !hang || ++endless < 3;
      const char* end = r.outcome == vs::kFinished ? "finished" : r.outcome == vs::kDeadlock ? "blocked"
                      : r.outcome == vs::kCrash ? "crash" : "hang";
      std::string key = std::to_string(idx) + end + ev;
      if (!seen.insert(key).second) return more;
      out << "{\"sc\":" << idx << ",\"cap\":" << s.cap << ",\"nt\":" << s.th.size() << ",\"sched\":\"";
      for (auto& c : r.choices) out << (int)c.first << ".";
      out << "\",\"ev\":[";
      for (char& c : ev) if (c == '\n') c = ',';
      out << ev << "{\"e\":\"end\",\"t\":0,\"op\":\"" << end << "\",\"v\":[],\"n\":0}]}\n";
      return more;
    };
    vs::Stats st = vs::Explore(cfg, dfs, rnd, seed * 7919 + idx, body, visit);
    total += st.runs; exhausted += st.exhausted;
  }
  out.close();
  std::cout << "{\"runs\":" << total << ",\"scenarios\":" << idx << ",\"exhausted\":" << exhausted << ",\"unique\":" << seen.size() << "}\n";
  return 0;
}
