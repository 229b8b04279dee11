// Drives the real DataIter with scripted data sources under the deterministic scheduler.
// usage: pipe_drv SCENARIOS OUT SEED DFS RANDOM PREEMPT SPURIOUS
// scenario line:  bsize,bnum|source;source;...|program
//   source: n,passes,epass,epos,bad   (bad: 0 good, 1 cannot be opened, 2 unknown format, 3 cannot be opened though it calls itself good)
//   program: aK add source K; n pull handing the oldest held batch back; h pull handing back nothing;
//            e pull (handing back) until end of data; y yield; the iterator is destroyed at the end.
#include <sol/pario/data_iter.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include "detsched.h"
using namespace sol;
using namespace sol::pario;

struct Src { int n, passes, epass, epos, bad; };
struct Scenario { int bs, bn; std::vector<Src> src; std::vector<std::string> prog; };
static Scenario* g = nullptr;

static void LogSlot(const char* e, int id, void* slot, int ok) {
  vs::Log("{\"e\":\"%s\",\"id\":%d,\"slot\":\"%p\",\"ok\":%d,\"v\":[],\"s\":[]}", e, id, slot, ok);
}

class ScriptReader : public DataReader {
 public:
  ScriptReader() : id_(-1), pass_(1), pos_(0), erred_(false), open_(false) {}
  virtual ~ScriptReader() { Shut(); }
  virtual int Open(const std::string& path, const char* mode) {
    id_ = atoi(path.c_str());
    if (g->src[id_ - 1].bad) return Status_IO_Error;
    open_ = true;
    LogSlot("open", id_, nullptr, 1);
    return Status_OK;
  }
  void Shut() { if (open_) { open_ = false; LogSlot("close", id_, nullptr, 1); } }
  virtual void Close() { Shut(); }
  virtual bool Good() { return open_ || g->src[id_ - 1].bad == 3; }
  virtual void Rewind() { ++pass_; pos_ = 0; }
  virtual int Next(DataPoint& d) {
    const Src& s = g->src[id_ - 1];
    vs::Yield();
    if (!erred_ && s.epass == pass_ && s.epos == pos_ + 1) {
      erred_ = true; LogSlot("read", id_, &d, 0);
      return Status_Invalid_Format;
    }
    if (pos_ >= s.n) { LogSlot("read", id_, &d, 0); return Status_EndOfFile; }
    LogSlot("read", id_, &d, 1);
    ++pos_;
    d.Clear();
    d.set_label((label_t)(id_ * 100 + pos_));
    vs::Yield();
    d.AddNewFeat((index_t)(id_ * 100 + pos_), (real_t)(id_ * 100 + pos_) * 0.5f);
    return Status_OK;
  }
 private:
  int id_, pass_, pos_; bool erred_, open_;
};
RegisterDataReader(ScriptReader, "script", "scripted source");

static std::string Items(const MiniBatch* b) {
  std::string r = "[";
  for (int i = 0; i < b->size(); ++i) {
    const DataPoint& p = (*b)[i];
    long rec = (long)p.label();
    if (p.size() != 1 || (long)p.index(0) != rec || p.feature(0) != rec * 0.5f) rec = -1;
    if (i) r += ",";
    r += std::to_string(rec);
  }
  return r + "]";
}
static std::string Slots(const MiniBatch* b) {
  std::string r = "["; char buf[40];
  for (int i = 0; i < b->capacity(); ++i) { snprintf(buf, 40, "%s\"%p\"", i ? "," : "", (const void*)&(*b)[i]); r += buf; }
  return r + "]";
}

static void Body() {
  long base = vs::LiveAllocs(), badBase = vs::BadFrees();
  {
  std::vector<MiniBatch*> held;
  DataIter* it = new DataIter(g->bs, g->bn);
  auto pull = [&](bool back) -> bool {
    MiniBatch* prev = nullptr;
    if (back && !held.empty()) { prev = held[0]; held.erase(held.begin()); }
    if (prev) {
      vs::Log("{\"e\":\"check\",\"id\":0,\"slot\":\"\",\"ok\":%d,\"v\":%s,\"s\":%s}", prev->size(), Items(prev).c_str(), Slots(prev).c_str());
      vs::Log("{\"e\":\"pull\",\"id\":0,\"slot\":\"\",\"ok\":1,\"v\":[],\"s\":%s}", Slots(prev).c_str());
    } else vs::Log("{\"e\":\"pull\",\"id\":0,\"slot\":\"\",\"ok\":0,\"v\":[],\"s\":[]}");
    MiniBatch* b = it->Next(prev);
    if (b == nullptr) { vs::Log("{\"e\":\"eod\",\"id\":0,\"slot\":\"\",\"ok\":0,\"v\":[],\"s\":[]}"); return false; }
    vs::Log("{\"e\":\"got\",\"id\":0,\"slot\":\"\",\"ok\":%d,\"v\":%s,\"s\":%s}", b->size(), Items(b).c_str(), Slots(b).c_str());
    held.push_back(b);
    vs::Yield();
    return true;
  };
  for (const std::string& op : g->prog) {
    if (op[0] == 'a') {
      int k = atoi(op.c_str() + 1);
      const Src& s = g->src[k - 1];
      int st = it->AddReader(std::to_string(k), s.bad == 2 ? "nosuchformat" : "script", s.passes);
      vs::Log("{\"e\":\"add\",\"id\":%d,\"slot\":\"\",\"ok\":%d,\"v\":[],\"s\":[]}", k, st == Status_OK ? 1 : st == Status_Invalid_Argument ? 0 : 2);
    } else if (op == "n") pull(true);
    else if (op == "h") { if ((int)held.size() < g->bn) pull(false); else pull(true); }
    else if (op == "e") { while (pull(true)) {} }
    else if (op == "y") vs::Yield();
  }
  vs::Log("{\"e\":\"destroy\",\"id\":0,\"slot\":\"\",\"ok\":1,\"v\":[],\"s\":[]}");
  delete it;
  int threads = vs::UnfinishedThreads();
  for (MiniBatch* b : held) {
    vs::Log("{\"e\":\"check\",\"id\":0,\"slot\":\"\",\"ok\":%d,\"v\":%s,\"s\":%s}", b->size(), Items(b).c_str(), Slots(b).c_str());
    delete b;
  }
  held.clear(); held.shrink_to_fit();
  vs::Log("{\"e\":\"destroyed\",\"id\":%d,\"slot\":\"\",\"ok\":0,\"v\":[%ld,%ld],\"s\":[]}", threads, vs::LiveAllocs() - base, vs::BadFrees() - badBase);
  }
}

static Scenario Parse(const std::string& line) {
  Scenario s; std::stringstream ss(line); std::string a, b, c, w;
  std::getline(ss, a, '|'); std::getline(ss, b, '|'); std::getline(ss, c, '|');
  sscanf(a.c_str(), "%d,%d", &s.bs, &s.bn);
  std::stringstream bs(b);
  while (std::getline(bs, w, ';')) { Src x; if (sscanf(w.c_str(), "%d,%d,%d,%d,%d", &x.n, &x.passes, &x.epass, &x.epos, &x.bad) == 5) s.src.push_back(x); }
  std::stringstream cs(c);
  while (cs >> w) s.prog.push_back(w);
  return s;
}

// replace pointers by small numbers; slots never seen in a delivered batch become 0
static std::string Renumber(const std::string& log) {
  std::map<std::string, int> num;
  size_t p = 0;
  while ((p = log.find("\"s\":[", p)) != std::string::npos) {
    p += 5; size_t e = log.find(']', p);
    std::string body = log.substr(p, e - p); size_t q = 0;
    while ((q = body.find('"', q)) != std::string::npos) {
      size_t r = body.find('"', q + 1); std::string key = body.substr(q + 1, r - q - 1);
      if (!num.count(key)) { int k = (int)num.size() + 1; num[key] = k; }
      q = r + 1;
    }
    p = e;
  }
  std::string out; p = 0;
  while (p < log.size()) {
    if (log[p] == '"' && (log.compare(p, 3, "\"0x") == 0 || log.compare(p, 2, "\"\"") == 0 || log.compare(p, 7, "\"(nil)\"") == 0)) {
      size_t r = log.find('"', p + 1); std::string key = log.substr(p + 1, r - p - 1);
      out += std::to_string(num.count(key) ? num[key] : 0); p = r + 1;
    } else out += log[p++];
  }
  return out;
}

int main(int argc, char** argv) {
  if (argc < 8) return 2;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]);
  if (!freopen("/dev/null", "w", stderr)) return 2;
  uint64_t seed = strtoull(argv[3], 0, 10);
  long dfs = atol(argv[4]), rnd = atol(argv[5]);
  vs::Config cfg; cfg.preemptions = atoi(argv[6]); cfg.spurious = atoi(argv[7]);
  std::string line; int idx = 0; long total = 0, exhausted = 0;
  std::set<std::string> seen;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    ++idx;
    Scenario s = Parse(line); g = &s;
    int endless = 0;
    auto visit = [&](const vs::RunResult& r) {
      // of a run that does not end the beginning is enough, and so are a few of them
      bool hang = r.outcome != vs::kFinished && r.outcome != vs::kDeadlock && r.outcome != vs::kCrash;
      std::string ev = Renumber(hang && r.log.size() > 30000 ? r.log.substr(0, r.log.find('\n', 30000) + 1) : r.log);
      bool more = !hang || ++endless < 3;
      const char* end = r.outcome == vs::kFinished ? "finished" : r.outcome == vs::kDeadlock ? "blocked"
                      : r.outcome == vs::kCrash ? "crash" : "hang";
      std::string key = std::to_string(idx) + end + ev;
      if (!seen.insert(key).second) return more;
      out << "{\"sc\":" << idx << ",\"bs\":" << s.bs << ",\"bn\":" << s.bn << ",\"sched\":\"";
      for (auto& c : r.choices) out << (int)c.first << ".";
      out << "\",\"src\":[";
      for (size_t i = 0; i < s.src.size(); ++i) {
        const Src& x = s.src[i];
        out << (i ? "," : "") << "{\"id\":" << i + 1 << ",\"n\":" << x.n << ",\"passes\":" << x.passes << ",\"epass\":" << x.epass << ",\"epos\":" << x.epos << ",\"bad\":" << (x.bad ? "true" : "false") << "}";
      }
      out << "],\"ev\":[";
      for (char& c : ev) if (c == '\n') c = ',';
      out << ev << "{\"e\":\"end\",\"id\":0,\"slot\":0,\"ok\":0,\"v\":[],\"s\":[],\"op\":\"" << end << "\"}]}\n";
      return more;
    };
    vs::Stats st = vs::Explore(cfg, dfs, rnd, seed * 7919 + idx, Body, visit);
    total += st.runs; exhausted += st.exhausted;
  }
  out.close();
  std::cout << "{\"runs\":" << total << ",\"scenarios\":" << idx << ",\"exhausted\":" << exhausted << ",\"unique\":" << seen.size() << "}\n";
  return 0;
}
