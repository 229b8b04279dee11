// Drives the real models through scripts of public calls and records what is observable.
// usage: model_drv CASES OUT SCRATCH ; one script per line, commands separated by '|'.
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>
#include <sol/sol.h>
#include <sol/c_api.h>
#include <sol/model/online_linear_model.h>
#include <sol/loss/loss.h>
#include <sol/loss/hinge_loss.h>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <memory>
#include <map>
#include <mutex>
#include <thread>
#include <sys/stat.h>
#include <limits>
#include "isolate.h"
using namespace sol;
using namespace sol::pario;
using namespace sol::model;
using iso::F; using iso::Bits;

// events of one of several sessions carry its number
static thread_local int g_tag = -1;
static std::mutex g_lock;
static void Ev(const std::string& s) {
  if (g_tag < 0) { iso::Ev(s); return; }
  std::lock_guard<std::mutex> l(g_lock);
  iso::Ev(F("{\"sess\":%d,", g_tag) + s.substr(1));
}

struct Rec { int y; std::vector<unsigned> i; std::vector<float> v; };
static std::string g_dir;
static int g_count = 0;
static std::map<int, std::vector<Rec>> g_data;    // in-memory data sets, by number

// "y i:v i:v"
static Rec ParseRec(const std::string& s) {
  Rec r; std::istringstream is(s); std::string t; is >> r.y;
  while (is >> t) { size_t p = t.find(':'); r.i.push_back((unsigned)strtoul(t.c_str(), 0, 10)); r.v.push_back(strtof(t.c_str() + p + 1, 0)); }
  return r;
}
static std::vector<std::string> Split(const std::string& s, char c) {
  std::vector<std::string> v; std::string t; std::istringstream is(s);
  while (std::getline(is, t, c)) v.push_back(t);
  return v;
}
static void Fill(DataPoint& d, const Rec& r) {
  d.Clear(); d.set_label(r.y);
  for (size_t k = 0; k < r.i.size(); ++k) d.AddNewFeat(r.i[k], r.v[k]);
}
class MemReader : public DataReader {
 public:
  virtual int Open(const std::string& path, const char*) { std::lock_guard<std::mutex> l(g_lock); v_ = &g_data[atoi(path.c_str())]; pos_ = 0; open_ = true; return Status_OK; }
  virtual void Close() { open_ = false; }
  virtual bool Good() { return open_; }
  virtual void Rewind() { pos_ = 0; }
  virtual int Next(DataPoint& d) {
    const std::vector<Rec>& v = *v_;
    if (pos_ >= v.size()) return Status_EndOfFile;
    Fill(d, v[pos_++]);
    return Status_OK;
  }
 private:
  const std::vector<Rec>* v_ = nullptr; size_t pos_ = 0; bool open_ = false;
};
RegisterDataReader(MemReader, "mem", "records in memory");

static std::string Js(const std::string& s) {
  std::string r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r + "\"";
}
static std::string BitList(const float* p, size_t n) {
  std::string r = "["; for (size_t k = 0; k < n; ++k) r += (k ? "," : "") + std::to_string(Bits(p[k])); return r + "]";
}
static std::string W(Model* m) {
  OnlineLinearModel* o = dynamic_cast<OnlineLinearModel*>(m);
  if (!o) return "[]";
  std::string r = "[";
  for (int c = 0; c < m->clf_num(); ++c) r += (c ? "," : "") + BitList(o->w(c).data(), o->w(c).size());
  return r + "]";
}
static std::string X(const Rec& r) {
  std::string a = "\"i\":[", b = "],\"v\":[";
  for (size_t k = 0; k < r.i.size(); ++k) { a += (k ? "," : "") + std::to_string(r.i[k]); b += (k ? "," : "") + std::to_string(Bits(r.v[k])); }
  return a + b + "]";
}
static std::string Counts(Model* m) {
  OnlineModel* o = dynamic_cast<OnlineModel*>(m);
  return F("\"it\":%d,\"upd\":%ld", o ? o->cur_iter_num() : 0, (long)m->update_num());
}
typedef std::vector<std::string> Calls;
static void Callback(void* ctx, long long d, long long it, long long u, double e) {
  int hi, lo; iso::Hilo(e, hi, lo);
  ((Calls*)ctx)->push_back(F("[%lld,%lld,%lld,[%d,%d]]", d, it, u, hi, lo));
}

static std::string DHilo(double d) { int hi, lo; iso::Hilo(d, hi, lo); return F("[%d,%d]", hi, lo); }

static void ParamCb(void* u, const char* n, const char* v) {
  std::string& s = *(std::string*)u;
  s += (s.size() > 1 ? "," : "") + Js(n) + ":" + Js(v);
}
static std::string Params(Model* m) { std::string s = "{"; sol_GetModelParameters(m, ParamCb, &s); return s + "}"; }
struct PredOut { std::string s; };
static void PredCb(void* u, double y, double lab, int n, float* sc) {
  std::string& s = *(std::string*)u;
  s += (s.size() > 1 ? "," : "") + F("[%d,%d,", (int)y, (int)lab) + BitList(sc, n) + "]";
}

struct Sess {
  Model* m = nullptr;
  bool begun = false;
  int data = 0;
  Calls g_cb;
  std::string g_dir;                         // scratch directory of the session
  void* it = nullptr; MiniBatch* mb = nullptr; int bs = 0;
  Sess(const std::string& dir) : g_dir(dir) {}
  std::string CbList() { std::string r = "["; for (size_t k = 0; k < g_cb.size(); ++k) r += (k ? "," : "") + g_cb[k]; g_cb.clear(); return r + "]"; }
  ~Sess() { if (m) { void* p = m; sol_ReleaseModel(&p); } if (it) sol_ReleaseDataIter(&it); }
  void Empty(bool train) {
    void* it = sol_CreateDataIter(4, 1);
    if (train) sol_Train(m, it); else sol_Test(m, it, nullptr);
    sol_ReleaseDataIter(&it);
  }
  void Take(Model* n) { if (m) { void* p = m; sol_ReleaseModel(&p); } m = n; begun = false; if (m) sol_InspectOnlineIteration(m, Callback, &g_cb); }
  // "rec;rec;rec" -> number of a data set
  int Data(const std::string& s) { std::vector<Rec> v; for (auto& t : Split(s, ';')) v.push_back(ParseRec(t)); std::lock_guard<std::mutex> l(g_lock); data = ++g_count; g_data[data] = v; return data; }
  static const std::vector<Rec>& Set(int k) { std::lock_guard<std::mutex> l(g_lock); return g_data[k]; }
  // "bs buf pass@recs" or with several sources "bs buf pass@recs@pass@recs"
  std::string src;                           // the records an iterator was given, in order, as JSON
  void* Iter(const std::string& a) {
    src = "[";
    std::vector<std::string> p = Split(a, '@');
    int bs = 0, buf = 0, pass = 1; sscanf(p[0].c_str(), "%d %d %d", &bs, &buf, &pass);
    void* it = sol_CreateDataIter(bs, buf);
    for (size_t k = 1; k < p.size(); k += 2) {
      if (k > 1) pass = atoi(p[k - 1].c_str());
      sol_LoadData(it, std::to_string(Data(p[k])).c_str(), "mem", pass);
      for (int q = 0; q < pass; ++q)
        for (auto& r : Set(data)) src += (src.size() > 1 ? "," : "") + F("{\"y\":%d,", r.y) + X(r) + "}";
    }
    src += "]";
    return it;
  }
  std::string Common() { return Counts(m) + ",\"w\":" + W(m); }

  void Do(const std::string& line) {
    size_t p = line.find(' ');
    std::string op = line.substr(0, p), a = p == std::string::npos ? "" : line.substr(p + 1);
    if (op == "new") {                       // new ALG CLASSES
      char name[100]; int k = 2; sscanf(a.c_str(), "%99s %d", name, &k);
      Take((Model*)sol_CreateModel(name, k));
      Ev(F("{\"e\":\"new\",\"alg\":%s,\"cls\":%d,\"ok\":%s", Js(name).c_str(), k, m ? "true" : "false") +
         (m ? ",\"K\":" + std::to_string(m->clf_num()) + ",\"par\":" + Params(m) + "," + Common() : "") + "}");
      return;
    }
    if (op == "load") {                      // load FILE
      Take((Model*)sol_RestoreModel((g_dir + "/" + a).c_str()));
      Ev(F("{\"e\":\"load\",\"ok\":%s", m ? "true" : "false") + (m ? ",\"alg\":" + Js(m->name()) + ",\"K\":" + std::to_string(m->clf_num()) + ",\"par\":" + Params(m) + "," + Common() : "") + "}");
      return;
    }
    if (op == "write") {                     // write FILE hex
      size_t q = a.find(' ');
      iso::WriteFile(g_dir + "/" + a.substr(0, q), q == std::string::npos ? "" : iso::Unhex(a.substr(q + 1)));
      return;
    }
    if (op == "cuts") {                      // cuts FILE FROM TO STEP : load every prefix of the file
      char fn[100]; long from = 0, to = 0, step = 1; sscanf(a.c_str(), "%99s %ld %ld %ld", fn, &from, &to, &step);
      std::string all = iso::ReadFile(g_dir + "/" + fn);
      if (to <= 0 || to > (long)all.size()) to = (long)all.size();
      for (long n = from; n <= to; n += step) {
        iso::WriteFile(g_dir + "/cut", all.substr(0, n));
        Model* x = (Model*)sol_RestoreModel((g_dir + "/cut").c_str());
        // is everything but trailing white space there?
        std::string body = all; while (!body.empty() && isspace((unsigned char)body.back())) body.pop_back();
        Ev(F("{\"e\":\"cut\",\"n\":%ld,\"whole\":%s,\"ok\":%s}", n, n >= (long)body.size() ? "true" : "false", x ? "true" : "false"));
        if (x) { void* q = x; sol_ReleaseModel(&q); }
      }
      return;
    }
    if (op == "hurt") {                      // hurt FILE : load the file with single damages, each of which makes it no model file
      std::string all = iso::ReadFile(g_dir + "/" + a);
      std::vector<std::pair<std::string, std::string>> v;
      size_t nl = all.find('\n'), par = all.find("model parameters:"), pnl = all.find('\n', par);
      if (nl == std::string::npos || par == std::string::npos) { Ev("{\"e\":\"hurt\",\"kind\":\"none\",\"ok\":true}"); return; }
      for (size_t i = 0; i < nl; ++i) v.push_back({"header-char-lost", all.substr(0, i) + all.substr(i + 1)});
      v.push_back({"header-char-changed", "model inf0:" + all.substr(nl)});
      v.push_back({"header-upper", "Model info:" + all.substr(nl)});
      v.push_back({"header-other", "model parameters:" + all.substr(nl)});
      v.push_back({"header-longer", all.substr(0, nl) + "x" + all.substr(nl)});
      v.push_back({"header-lost", all.substr(nl + 1)});
      v.push_back({"header-late", "\n" + all});
      v.push_back({"section-lost", all.substr(0, par) + all.substr(pnl + 1)});
      v.push_back({"section-changed", all.substr(0, par) + "model parameterz:" + all.substr(pnl)});
      v.push_back({"section-longer", all.substr(0, pnl) + "x" + all.substr(pnl)});
      std::string info = all.substr(nl, par - nl);
      for (char ch : {'{', '}', '"'}) {          // unbalance the description
        size_t at = info.rfind(ch); if (at == std::string::npos) continue;
        v.push_back({"description-damaged", all.substr(0, nl) + info.substr(0, at) + info.substr(at + 1) + all.substr(par)});
      }
      for (const char* key : {"\"model\"", "\"cls_num\"", "\"clf_num\""}) {   // one of the essential entries lost
        size_t at = info.find(key); if (at == std::string::npos) continue;
        v.push_back({"entry-renamed", all.substr(0, nl + at + 1) + "no" + all.substr(nl + at + 3)});
      }
      size_t mn = info.find("\"model\""); mn = mn == std::string::npos ? mn : info.find(':', mn); mn = mn == std::string::npos ? mn : info.find('"', mn);
      if (mn != std::string::npos) v.push_back({"unknown-model", all.substr(0, nl + mn + 1) + "zz" + all.substr(nl + mn + 1)});
      for (size_t at = all.find('[', pnl), n = 0; at != std::string::npos && n < 12; at = all.find('[', at + 1)) {
        if (at + 1 >= all.size() || all[at + 1] != ' ') continue;      // "weight[0]:" is a name
        size_t end = all.find(']', at); if (end == std::string::npos) break;
        ++n;
        v.push_back({"vector-lost", all.substr(0, at) + all.substr(end + 1)});
        v.push_back({"vector-open-lost", all.substr(0, at) + all.substr(at + 1)});
        v.push_back({"vector-close-lost", all.substr(0, end) + all.substr(end + 1)});
        v.push_back({"number-more", all.substr(0, end) + "1 " + all.substr(end)});
        size_t b = at + 2, e = all.find(' ', b);
        v.push_back({"number-lost", all.substr(0, b) + all.substr(e + 1)});
        v.push_back({"number-replaced", all.substr(0, b) + "x" + all.substr(e)});
        size_t lb = all.rfind(' ', end - 2);
        if (lb != std::string::npos && lb > at) v.push_back({"number-lost", all.substr(0, lb) + all.substr(end - 1)});
      }
      for (auto& d : v) {
        iso::WriteFile(g_dir + "/cut", d.second);
        Model* x = (Model*)sol_RestoreModel((g_dir + "/cut").c_str());
        Ev("{\"e\":\"hurt\",\"kind\":\"" + d.first + F("\",\"ok\":%s}", x ? "true" : "false"));
        if (x) { void* q = x; sol_ReleaseModel(&q); }
      }
      return;
    }
    if (op == "loss") {                      // loss NAME y margin s1 s2 ...
      std::istringstream is(a); std::string n; int y; float mg; is >> n >> y >> mg;
      std::vector<float> s; std::string t; while (is >> t) s.push_back(strtof(t.c_str(), 0));
      std::unique_ptr<loss::Loss> L(loss::Loss::Create(n));
      if (!L) { Ev("{\"e\":\"loss\",\"name\":" + Js(n) + ",\"ok\":false}"); return; }
      loss::HingeBase* hb = dynamic_cast<loss::HingeBase*>(L.get());
      if (hb) hb->set_margin(mg);
      DataPoint d; d.set_label(y); d.AddNewFeat(1, 1);
      std::vector<float> p1 = s, p2 = s, gr(s.size(), 77.f);
      label_t lab = s.size() == 1 ? loss::Loss::Sign(s[0]) : label_t(std::max_element(s.begin(), s.end()) - s.begin());
      float l = L->loss(d, p1.data(), lab, (int)s.size());
      float l2 = L->gradient(d, p2.data(), lab, gr.data(), (int)s.size());
      bool kept = !memcmp(p1.data(), s.data(), 4 * s.size()) && !memcmp(p2.data(), s.data(), 4 * s.size());
      Ev("{\"e\":\"loss\",\"ok\":true,\"name\":" + Js(n) + F(",\"y\":%d,\"m\":%d,\"l\":%d,\"l2\":%d,\"kept\":%s", y, Bits(mg), Bits(l), Bits(l2), kept ? "true" : "false") +
         ",\"s\":" + BitList(s.data(), s.size()) + ",\"g\":" + BitList(gr.data(), gr.size()) + "}");
      return;
    }
    if (op == "source") {                    // source bs buf pass fmt HEX : an iterator over a file
      std::istringstream is(a); int buf, pass; std::string fmt, hex; is >> bs >> buf >> pass >> fmt >> hex;
      std::string path = g_dir + F("/src%d.", ++data) + fmt; iso::WriteFile(fmt == "bin" ? path + ".svm" : path, iso::Unhex(hex));
      if (fmt == "bin") {                    // written by the library from the text
        std::unique_ptr<DataReader> rd(DataReader::Create("svm")); std::unique_ptr<DataWriter> wr(DataWriter::Create("bin"));
        if (rd->Open(path + ".svm") == Status_OK && wr->Open(path) == Status_OK) { DataPoint d; while (rd->Next(d) == Status_OK) wr->Write(d); wr->Close(); }
      }
      if (!it) it = sol_CreateDataIter(bs, buf);
      int st = sol_LoadData(it, path.c_str(), fmt.c_str(), pass);
      Ev(F("{\"e\":\"source\",\"st\":%d}", st));
      return;
    }
    if (op == "pull") {                      // the next batch of the iterator
      if (!it) { it = sol_CreateDataIter(2, 2); bs = 2; }
      mb = ((DataIter*)it)->Next(mb);
      std::string r = "[";
      for (int k = 0; mb && k < mb->size(); ++k) {
        const DataPoint& d = (*mb)[k]; Rec q; q.y = d.label();
        for (size_t j = 0; j < d.size(); ++j) { q.i.push_back(d.index(j)); q.v.push_back(d.feature(j)); }
        r += (k ? "," : "") + F("{\"y\":%d,", q.y) + X(q) + "}";
      }
      Ev(F("{\"e\":\"pull\",\"end\":%s,\"recs\":", mb ? "false" : "true") + r + "]}");
      return;
    }
    if (!m) { Ev("{\"e\":\"nomodel\"}"); return; }
    if (op == "set") {                       // set NAME VALUE
      size_t q = a.find(' ');
      std::string n = a.substr(0, q), v = q == std::string::npos ? "" : a.substr(q + 1);
      if (v.compare(0, 5, "FILE:") == 0) v = g_dir + "/" + v.substr(5);
      int st = sol_SetModelParameter(m, n.c_str(), v.c_str());
      begun = false;
      Ev("{\"e\":\"set\",\"name\":" + Js(n) + ",\"val\":" + Js(q == std::string::npos ? "" : a.substr(q + 1)) + F(",\"st\":%d", st) + ",\"par\":" + Params(m) + "," + Common() + "}");
    } else if (op == "learn" || op == "feed") {   // learn y i:v ... : one iteration on the record as it is; feed: preprocessed
      if (!begun) { Empty(true); g_cb.clear(); begun = true; Ev("{\"e\":\"begin\"," + Common() + "}"); }
      Rec r = ParseRec(a); DataPoint d; Fill(d, r);
      std::vector<float> sc(m->clf_num(), 0.f);
      OnlineModel* o = dynamic_cast<OnlineModel*>(m);
      if (op == "feed") m->PreProcess(d);
      label_t lab = o->Iterate(d, sc.data());
      Ev(F("{\"e\":\"learn\",\"y\":%d,\"cy\":%d,\"lab\":%d,", r.y, d.label(), lab) + X(r) + ",\"p\":" + BitList(sc.data(), sc.size()) + "," + Common() + "}");
    } else if (op == "begin") {              // training on a source without records
      Empty(true); begun = true;
      Ev("{\"e\":\"begin\"," + Common() + "}");
    } else if (op == "try") {                // try y i:v ... : a training call on one record
      g_cb.clear();
      void* it = Iter("4 2 1@" + a);
      float er = sol_Train(m, it);
      sol_ReleaseDataIter(&it);
      Ev("{\"e\":\"try\",\"er\":" + DHilo(er) + ",\"cb\":" + CbList() + "," + Common() + "}");
    } else if (op == "final") {              // what testing and predicting do first
      Empty(false); begun = false;
      Ev("{\"e\":\"final\"," + Common() + "}");
    } else if (op == "pred") {               // pred y i:v ...
      Rec r = ParseRec(a); DataPoint d; Fill(d, r);
      std::vector<float> sc(m->clf_num(), 0.f);
      label_t lab = m->Predict(d, sc.data());
      Ev(F("{\"e\":\"pred\",\"y\":%d,\"lab\":%d,", r.y, lab) + X(r) + ",\"p\":" + BitList(sc.data(), sc.size()) + "," + Common() + "}");
    } else if (op == "prep") {               // prep y i:v ... : preprocessing alone
      Rec r = ParseRec(a); DataPoint d; Fill(d, r);
      m->PreProcess(d);
      Rec q; q.y = d.label(); for (size_t k = 0; k < d.size(); ++k) { q.i.push_back(d.index(k)); q.v.push_back(d.feature(k)); }
      Ev(F("{\"e\":\"prep\",\"y\":%d,\"ry\":%d,", r.y, q.y) + X(r) + ",\"r\":{" + X(q) + "}}");
    } else if (op == "reload") {             // save, load, go on with the loaded one
      int st = sol_SaveModel(m, (g_dir + "/m").c_str());
      std::string before = Common(), par = Params(m);
      Model* n = (Model*)sol_RestoreModel((g_dir + "/m").c_str());
      if (n) Take(n);
      Ev(F("{\"e\":\"reload\",\"st\":%d,\"ok\":%s,", st, n ? "true" : "false") + "\"was\":{" + before + ",\"par\":" + par + "}" +
         (n ? ",\"alg\":" + Js(m->name()) + ",\"K\":" + std::to_string(m->clf_num()) + ",\"par\":" + Params(m) + "," + Common() : "") + "}");
    } else if (op == "save") {               // save FILE
      int st = sol_SaveModel(m, a[0] == '/' ? a.c_str() : (g_dir + "/" + a).c_str());
      begun = false;
      Ev(F("{\"e\":\"save\",\"st\":%d,", st) + Common() + "}");
    } else if (op == "limits") {             // limits FILE STEP : save where only so many bytes can be written
      char fn[100]; long step = 1; sscanf(a.c_str(), "%99s %ld", fn, &step);
      std::string path = g_dir + "/" + fn;
      sol_SaveModel(m, path.c_str());
      long size = (long)iso::ReadFile(path).size();
      signal(SIGXFSZ, SIG_IGN);
      struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
      for (long n = 0; n <= size + step; n += step) {
        unlink(path.c_str());
        struct rlimit lim = old; lim.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &lim);
        int st = sol_SaveModel(m, path.c_str());
        setrlimit(RLIMIT_FSIZE, &old);
        Model* x = (Model*)sol_RestoreModel(path.c_str());
        std::string got = iso::ReadFile(path);
        Ev(F("{\"e\":\"limit\",\"n\":%ld,\"fits\":%s,\"st\":%d,\"len\":%ld,\"size\":%ld,\"ok\":%s}", n, n >= size ? "true" : "false", st, (long)got.size(), size, x ? "true" : "false"));
        if (x) { void* q = x; sol_ReleaseModel(&q); }
      }
    } else if (op == "params") {
      Ev("{\"e\":\"params\",\"par\":" + Params(m) + "}");
    } else if (op == "train") {              // train bs buf pass@recs...
      g_cb.clear();
      void* it = Iter(a);
      float er = sol_Train(m, it);
      sol_ReleaseDataIter(&it);
      Ev("{\"e\":\"train\",\"src\":" + src + ",\"er\":" + DHilo(er) + ",\"cb\":" + CbList() + "," + Common() + "}");
    } else if (op == "test" || op == "predict") {   // test bs buf pass@recs...
      void* it = Iter(a);
      std::string out = g_dir + "/scores", rows = "[";
      if (op == "test") {
        float er = sol_Test(m, it, out.c_str());
        std::ifstream in(out.c_str()); std::string l, head; std::getline(in, head);
        bool ok = head == "label\tpredict\tscores";
        while (std::getline(in, l)) {
          std::vector<std::string> c = Split(l, '\t');
          if ((int)c.size() != 2 + m->clf_num()) { ok = false; continue; }
          std::vector<float> sc; for (size_t k = 2; k < c.size(); ++k) sc.push_back(strtof(c[k].c_str(), 0));
          rows += (rows.size() > 1 ? "," : "") + F("[%d,%d,", atoi(c[0].c_str()), atoi(c[1].c_str())) + BitList(sc.data(), sc.size()) + "]";
        }
        Ev("{\"e\":\"test\",\"src\":" + src + ",\"er\":" + DHilo(er) + F(",\"ok\":%s", ok ? "true" : "false") + ",\"rows\":" + rows + "]," + Common() + "}");
      } else {
        int n = sol_Predict(m, it, PredCb, &rows);
        Ev("{\"e\":\"predict\",\"src\":" + src + F(",\"n\":%d", n) + ",\"rows\":" + rows + "]," + Common() + "}");
      }
      sol_ReleaseDataIter(&it);
    } else if (op == "sparsity") {
      float s = sol_model_sparsity(m);
      Ev("{\"e\":\"sparsity\",\"s\":" + DHilo(s) + "," + Common() + "}");
    } else if (op == "data") {               // data recs : announces a data set to the checker
      std::string s = "[";
      for (auto& t : Split(a, ';')) { Rec r = ParseRec(t); s += (s.size() > 1 ? "," : "") + F("{\"y\":%d,", r.y) + X(r) + "}"; }
      Ev("{\"e\":\"data\",\"recs\":" + s + "]}");
    } else {
      Ev("{\"e\":\"badop\"}");
    }
  }
};

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  g_dir = argv[3];
  if (!getenv("VERIF_ERR")) { if (!freopen("/dev/null", "w", stderr)) return 2; }
  if (!freopen("/dev/null", "w", stdout)) return 2;
  return iso::Run(argv[1], argv[2], 60, [](const std::string& line) {
    // multi ORDER^script^script... : several sessions; ORDER names the one to take its next step, or is "par": one thread each
    if (line.compare(0, 6, "multi ") == 0) {
      std::vector<std::string> sc = Split(line.substr(6), '^');
      std::vector<std::vector<std::string>> todo; std::vector<std::unique_ptr<Sess>> v;
      for (size_t k = 1; k < sc.size(); ++k) {
        std::string d = g_dir + F("/s%zu", k); mkdir(d.c_str(), 0700);
        todo.push_back(Split(sc[k], '|')); v.emplace_back(new Sess(d));
      }
      if (sc[0] == "par") {
        std::vector<std::thread> t;
        for (size_t k = 0; k < v.size(); ++k) t.emplace_back([&, k] { g_tag = (int)k; for (auto& c : todo[k]) v[k]->Do(c); v[k].reset(); });
        for (auto& x : t) x.join();
      } else {
        std::vector<size_t> at(v.size(), 0);
        for (char ch : sc[0]) { size_t k = size_t(ch - '0'); if (k < v.size() && at[k] < todo[k].size()) { g_tag = (int)k; v[k]->Do(todo[k][at[k]++]); } }
        for (size_t k = 0; k < v.size(); ++k) { g_tag = (int)k; while (at[k] < todo[k].size()) v[k]->Do(todo[k][at[k]++]); }
        g_tag = -1;
      }
      return;
    }
    Sess s(g_dir);
    for (auto& c : Split(line, '|')) s.Do(c);
  });
}
