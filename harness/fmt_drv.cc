// Drives the real data readers, writers, tools and data points; one case per input line, see Do().
// usage: fmt_drv CASES OUT SCRATCHDIR
#include <algorithm>
#include <set>
#include <sol/sol.h>
#include <sol/tools.h>
#include <sol/c_api.h>
#include <sol/pario/compress.h>
#include <sol/pario/binary_writer.h>
#ifdef HAS_NUMPY_DEV
#include <numpy/arrayobject.h>
#include <sys/mman.h>
#include <sol/pario/numpy_reader.h>
#include <sol/pario/csr_matrix_reader.h>
#endif
#include <memory>
#include <sstream>
#include <iostream>
#include <sys/stat.h>
#include <dirent.h>
#include "isolate.h"
using namespace sol;
using namespace sol::pario;
using iso::Ev;
using iso::F;

static std::string g_dir;
#ifdef WITH_TOOLS
int concat_tool_main(int argc, char** argv);
#endif

static std::string RecJson(const DataPoint& p) {
  std::string s = F("\"label\":\"%d\",\"idx\":[", (int)p.label());
  for (size_t i = 0; i < p.size(); ++i) s += F("%s\"%llu\"", i ? "," : "", (unsigned long long)p.index(i));
  s += "],\"val\":[";
  for (size_t i = 0; i < p.size(); ++i) s += F("%s%d", i ? "," : "", iso::Bits(p.feature(i)));
  return s + "]";
}
static const char* kNone = "\"label\":\"0\",\"idx\":[],\"val\":[]";

static void ReadAll(DataReader* r, int passes, long limit = 200000) {
  DataPoint p; p.set_label(77); p.AddNewFeat(99, 7.f);   // points are used again
  while (passes > 0 && limit-- > 0) {
    int st = r->Next(p);
    if (st == Status_OK) Ev(F("{\"e\":\"rec\",\"st\":0,") + RecJson(p) + "}");
    else {
      Ev(F("{\"e\":\"rec\",\"st\":%d,%s}", st, kNone));
      if (st != Status_EndOfFile) break;
      if (--passes > 0) { r->Rewind(); Ev("{\"e\":\"rewind\"}"); }
    }
  }
}
static int OpenRead(const std::string& fmt, const std::string& path, int passes) {
  std::unique_ptr<DataReader> r(DataReader::Create(fmt));
  if (!r) { Ev("{\"e\":\"open\",\"st\":-1}"); return -1; }
  int st = r->Open(path);
  Ev(F("{\"e\":\"open\",\"st\":%d}", st));
  if (st == Status_OK) ReadAll(r.get(), passes);
  return st;
}
// records of a file as one JSON array, "null" if it cannot be read to its end
static std::string Recs(const std::string& fmt, const std::string& path) {
  std::unique_ptr<DataReader> r(DataReader::Create(fmt));
  if (!r || r->Open(path) != Status_OK) return "";
  DataPoint p; std::string s = "["; bool first = true; int st;
  while ((st = r->Next(p)) == Status_OK) { s += std::string(first ? "{" : ",{") + RecJson(p) + "}"; first = false; }
  if (st != Status_EndOfFile) return "";
  return s + "]";
}
// the distinct numbers of columns of the lines (a table has just one)
static std::string Cols(const std::string& path) {
  std::set<size_t> s; std::istringstream in(iso::ReadFile(path)); std::string l;
  while (std::getline(in, l)) s.insert(1 + std::count(l.begin(), l.end(), ','));
  std::string r;
  for (size_t n : s) r += F("%s%zu", r.empty() ? "" : ",", n);
  return "[" + r + "]";
}
static void Out(const char* name, const std::string& fmt, const std::string& path) {
  std::string r = Recs(fmt, path), c = fmt == "csv" ? Cols(path) : "[1]";
  if (r.empty()) Ev(F("{\"e\":\"out\",\"name\":\"%s\",\"readable\":0,\"cols\":[],\"recs\":[]}", name));
  else Ev(F("{\"e\":\"out\",\"name\":\"%s\",\"readable\":1,\"cols\":%s,\"recs\":", name, c.c_str()) + r + "}");
}

static std::vector<std::string> Words(const std::string& s, char d = ' ') {
  std::vector<std::string> r; std::stringstream ss(s); std::string w;
  while (std::getline(ss, w, d)) r.push_back(w);
  return r;
}
// label:idx,bits;idx,bits
static void ParseRec(const std::string& s, DataPoint& p) {
  p.Clear();
  size_t c = s.find(':');
  p.set_label(atoi(s.substr(0, c).c_str()));
  for (const std::string& f : Words(s.substr(c + 1), ';')) {
    size_t k = f.find(',');
    if (k == std::string::npos) continue;
    int b = (int)strtol(f.substr(k + 1).c_str(), 0, 10); float v; memcpy(&v, &b, 4);
    p.AddNewFeat((index_t)strtoull(f.substr(0, k).c_str(), 0, 10), v);
  }
}

template <typename T> static void Codec(const std::vector<std::string>& w) {
  math::Vector<T> in, out; math::Vector<char> codes;
  for (const std::string& x : w) in.push_back((T)strtoull(x.c_str(), 0, 10));
  comp_index(in, codes); decomp_index(codes, out);
  std::string s = "{\"e\":\"codec\",\"in\":[";
  for (size_t i = 0; i < w.size(); ++i) s += F("%s\"%s\"", i ? "," : "", w[i].c_str());
  s += "],\"out\":[";
  for (size_t i = 0; i < out.size(); ++i) s += F("%s\"%llu\"", i ? "," : "", (unsigned long long)out[i]);
  Ev(s + "]}");
}

static void ClearDir() {
  DIR* d = opendir(g_dir.c_str()); if (!d) return;
  while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((g_dir + "/" + n).c_str()); }
  closedir(d);
}
static int FilesWith(const std::string& prefix) {
  int n = 0; DIR* d = opendir(g_dir.c_str());
  while (dirent* e = readdir(d)) if (strncmp(e->d_name, prefix.c_str(), prefix.size()) == 0) ++n;
  closedir(d); return n;
}

static void DpState(const std::vector<DataPoint>& v) {
  std::string s = "{\"e\":\"state\",\"pts\":[";
  for (size_t i = 0; i < v.size(); ++i)
    s += std::string(i ? ",{" : "{") + RecJson(v[i]) + F(",\"n\":%zu,\"dim\":\"%llu\",\"sorted\":%s}", v[i].size(), (unsigned long long)v[i].dim(), v[i].IsSorted() ? "true" : "false");
  Ev(s + "]}");
}

#ifdef HAS_NUMPY_DEV
// another array read through the same iterator before
static void Before(void* it) {
  static double x[10] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, y[5] = {7, 7, 7, 7, 7};
  npy_intp dims[2] = {5, 2}, strides[2] = {16, 8};
  sol_loadArray(it, (char*)x, (char*)y, dims, strides, 1);
  MiniBatch* mb = nullptr; while ((mb = ((DataIter*)it)->Next(mb)) != nullptr) {}
}
#endif
static void Do(const std::string& line) {
  std::vector<std::string> w = Words(line);
  const std::string& k = w[0];
  ClearDir();
  if (k == "read") {               // read FMT PASSES HEX
    std::string path = g_dir + "/in." + w[1];
    iso::WriteFile(path, iso::Unhex(w.size() > 3 ? w[3] : ""));
    OpenRead(w[1], path, atoi(w[2].c_str()));
  } else if (k == "bin") {         // bin CUTSTEP rec rec ...
    std::string path = g_dir + "/f.bin"; int step = atoi(w[1].c_str());
    std::vector<long> sizes; DataPoint p;
    for (size_t n = 2; n <= w.size(); ++n) {   // file with the first n-2 records, to learn the boundaries
      BinaryWriter bw; bw.Open(path);
      for (size_t i = 2; i < n; ++i) { ParseRec(w[i], p); if (bw.Write(p) != Status_OK) Ev("{\"e\":\"werr\"}"); }
      bw.Close();
      struct stat sb; stat(path.c_str(), &sb); sizes.push_back((long)sb.st_size);
      if (n > 2) { ParseRec(w[n - 1], p); Ev("{\"e\":\"wrote\"," + RecJson(p) + F(",\"size\":%ld}", sizes.back())); }
    }
    std::string all = iso::ReadFile(path);
    for (long cut = (long)all.size(); cut >= 0; cut -= (cut == (long)all.size() ? 1 : step)) {
      iso::WriteFile(g_dir + "/c.bin", all.substr(0, cut));
      Ev(F("{\"e\":\"cut\",\"at\":%ld}", cut));
      OpenRead("bin", g_dir + "/c.bin", 1);
      if (cut > 0 && cut - step < 0 && step > 1) cut = step;  // finish with the empty file
    }
  } else if (k == "codec") {       // codec WIDTH v v v
    std::vector<std::string> v(w.begin() + 2, w.end());
    if (w[1] == "16") Codec<uint16_t>(v); else if (w[1] == "32") Codec<uint32_t>(v); else Codec<uint64_t>(v);
  } else if (k == "conv") {        // conv SRCFMT HEX BIN THRBITS FMT1 FMT2 ...
    std::string cur = g_dir + "/src." + w[1], fmt = w[1];
    iso::WriteFile(cur, iso::Unhex(w[2]));
    int b = atoi(w[4].c_str()); float thr; memcpy(&thr, &b, 4);
    for (size_t i = 5; i < w.size(); ++i) {
      std::string dst = g_dir + F("/o%zu.%s", i, w[i].c_str());
      int st = sol_convert_data(cur.c_str(), fmt.c_str(), dst.c_str(), w[i].c_str(), w[3] == "1", thr);
      Ev(F("{\"e\":\"conv\",\"from\":\"%s\",\"to\":\"%s\",\"st\":%d}", fmt.c_str(), w[i].c_str(), st));
      if (st != 0) return;
      Out("conv", w[i], dst);
      cur = dst; fmt = w[i];
    }
  } else if (k == "convmissing") { // convmissing FMT DSTFMT : source file does not exist
    int st = sol_convert_data((g_dir + "/nofile").c_str(), w[1].c_str(), (g_dir + "/o").c_str(), w[2].c_str(), false, 0);
    Ev(F("{\"e\":\"refuse\",\"st\":%d}", st));
  } else if (k == "convfmt") {     // convfmt SRCFMT DSTFMT : one of them unknown
    std::string src = g_dir + "/s"; iso::WriteFile(src, "1 1:1\n");
    int st = sol_convert_data(src.c_str(), w[1].c_str(), (g_dir + "/o").c_str(), w[2].c_str(), false, 0);
    Ev(F("{\"e\":\"refuse\",\"st\":%d}", st));
  } else if (k == "full") {        // full TOOL DSTFMT full|nodir HEX : a destination that cannot take the data
    std::string src = g_dir + "/s.svm"; iso::WriteFile(src, iso::Unhex(w[4]));
    const std::string &t = w[1], &df = w[2];
    std::string o = w[3] == "full" ? g_dir + "/out" : g_dir + "/nodir/out";
    if (w[3] == "full") {
      std::string at = t == "split" ? g_dir + "/out1." + df : o;
      if (symlink("/dev/full", at.c_str()) != 0) { Ev("{\"e\":\"nolink\"}"); return; }
    }
    int st = -1;
    if (t == "convert") st = sol_convert_data(src.c_str(), "svm", o.c_str(), df.c_str(), false, 0);
    else if (t == "shuffle") st = sol_shuffle_data(src.c_str(), "svm", o.c_str(), df.c_str());
    else if (t == "split") st = sol_split_data(src.c_str(), "svm", 3, o.c_str(), df.c_str(), false);
    else if (t == "analyze") st = sol_analyze_data(src.c_str(), "svm", o.c_str());
#ifdef WITH_TOOLS
    else {
      std::vector<std::string> a = {"concat", "-i", src + ";" + src, "-s", "svm", "-o", o, "-d", df};
      std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]);
      st = concat_tool_main((int)av.size(), av.data());
    }
#endif
    Ev(F("{\"e\":\"refuse\",\"st\":%d}", st));
  } else if (k == "shuffle" || k == "split" || k == "concat" || k == "analyze") {
    // tool SRCFMT DSTFMT(or -) K SHUF HEX [HEX ...]
    std::string sf = w[1], df = w[2] == "-" ? sf : w[2]; int kk = atoi(w[3].c_str());
    std::vector<std::string> src;
    for (size_t i = 5; i < w.size(); ++i) {
      std::string p = g_dir + F("/s%zu.svm", i); iso::WriteFile(p, iso::Unhex(w[i]));
      if (sf != "svm") {   // prepare the source in the wanted format
        std::string q = g_dir + F("/s%zu.%s", i, sf.c_str());
        if (sol_convert_data(p.c_str(), "svm", q.c_str(), sf.c_str(), false, 0) != 0) { Ev("{\"e\":\"noprep\"}"); return; }
        p = q;
      }
      src.push_back(p);
      Out("in", sf, p);
    }
    if (k == "shuffle") {
      std::string o = g_dir + "/out";
      int st = sol_shuffle_data(src[0].c_str(), sf.c_str(), o.c_str(), w[2] == "-" ? NULL : df.c_str());
      Ev(F("{\"e\":\"tool\",\"name\":\"shuffle\",\"k\":0,\"st\":%d,\"files\":1,\"shuf\":true}", st));
      Out("out", df, o);
    } else if (k == "split") {
      int st = sol_split_data(src[0].c_str(), sf.c_str(), kk, (g_dir + "/fold").c_str(), w[2] == "-" ? NULL : df.c_str(), w[4] == "1");
      Ev(F("{\"e\":\"tool\",\"name\":\"split\",\"k\":%d,\"st\":%d,\"files\":%d,\"shuf\":%s}", kk, st, FilesWith("fold"), w[4] == "1" ? "true" : "false"));
      for (int i = 0; i < kk; ++i) Out("out", df, g_dir + F("/fold%d.%s", i, df.c_str()));
    } else if (k == "analyze") {
      int st = sol_analyze_data(src[0].c_str(), sf.c_str(), (g_dir + "/rep").c_str());
      Ev(F("{\"e\":\"tool\",\"name\":\"analyze\",\"k\":0,\"st\":%d,\"files\":1,\"shuf\":false}", st));
      std::istringstream rep(iso::ReadFile(g_dir + "/rep")); std::string l, per;
      std::string v[5] = {"-1", "-1", "-1", "-1", "-1"};
      const char* names[5] = {"data number ", "feat number", "dimension", "nonzero feat", "class num"};
      while (std::getline(rep, l)) {
        size_t c = l.rfind(':'); if (c == std::string::npos) continue;
        std::string val = l.substr(c + 1); val.erase(0, val.find_first_not_of(' '));
        int cls;
        if (sscanf(l.c_str(), "data number of class %d", &cls) == 1) { per += F("%s[\"%d\",\"%s\"]", per.empty() ? "" : ",", cls, val.c_str()); continue; }
        for (int i = 0; i < 5; ++i) if (l.compare(0, strlen(names[i]), names[i]) == 0) v[i] = val;
      }
      Ev(F("{\"e\":\"report\",\"n\":\"%s\",\"f\":\"%s\",\"dim\":\"%s\",\"nz\":\"%s\",\"cls\":\"%s\",\"per\":[%s]}", v[0].c_str(), v[1].c_str(), v[2].c_str(), v[3].c_str(), v[4].c_str(), per.c_str()));
    } else {
#ifdef WITH_TOOLS
      std::string in; for (auto& s : src) in += (in.empty() ? "" : ";") + s;
      std::string o = g_dir + "/out";
      std::vector<std::string> a = {"concat", "-i", in, "-s", sf, "-o", o, "-d", df};
      std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]);
      int st = concat_tool_main((int)av.size(), av.data());
      Ev(F("{\"e\":\"tool\",\"name\":\"concat\",\"k\":0,\"st\":%d,\"files\":1,\"shuf\":false}", st));
      Out("out", df, o);
#endif
    }
  } else if (k == "dpbig") {       // dpbig idx,bits ... : append all, then sort point 0, then clone to point 1
    std::vector<DataPoint> v(3);
    for (size_t i = 1; i < w.size(); ++i) {
      std::vector<std::string> a = Words(w[i], ',');
      int b = atoi(a[1].c_str()); float f; memcpy(&f, &b, 4); v[0].AddNewFeat((index_t)strtoull(a[0].c_str(), 0, 10), f);
      Ev(F("{\"e\":\"op\",\"op\":\"add\",\"p\":1,\"a\":\"%s\",\"b\":%d}", a[0].c_str(), b));
    }
    DpState(v);
    v[0].Sort();
    Ev("{\"e\":\"op\",\"op\":\"sort\",\"p\":1,\"a\":\"0\",\"b\":0}"); DpState(v);
    v[0].Clone(v[1]);
    Ev("{\"e\":\"op\",\"op\":\"clone\",\"p\":1,\"a\":\"1\",\"b\":0}"); DpState(v);
  } else if (k == "dp") {          // dp op op ...   points A B C = 0 1 2
    std::vector<DataPoint> v(3);
    for (size_t i = 1; i < w.size(); ++i) {
      std::vector<std::string> a = Words(w[i], ',');
      int p = atoi(a[1].c_str());
      std::string op = a[0];
      if (op == "add") { int b = atoi(a[3].c_str()); float f; memcpy(&f, &b, 4); v[p].AddNewFeat((index_t)strtoull(a[2].c_str(), 0, 10), f); }
      else if (op == "label") v[p].set_label(atoi(a[2].c_str()));
      else if (op == "sort") v[p].Sort();
      else if (op == "clone") v[p].Clone(v[atoi(a[2].c_str())]);
      else if (op == "newclone") v[atoi(a[2].c_str())] = v[p].Clone();
      else if (op == "clear") v[p].Clear();
      else if (op == "resize") v[p].Resize(strtoul(a[2].c_str(), 0, 10));
      else if (op == "set") { size_t at = strtoul(a[2].c_str(), 0, 10); int b = atoi(a[3].c_str()); float f; memcpy(&f, &b, 4); if (at < v[p].size()) v[p].feature(at) = f; }
      Ev(F("{\"e\":\"op\",\"op\":\"%s\",\"p\":%d,\"a\":\"%s\",\"b\":%s}", op.c_str(), p + 1, a.size() > 2 ? a[2].c_str() : "0", a.size() > 3 ? a[3].c_str() : "0"));
      DpState(v);
    }
  }
#ifdef HAS_NUMPY_DEV
  else if (k.compare(0, 2, "np") == 0) {   // np[b|f] ROWS COLS STRIDE HASY PASSES VIA y.. x..   (values as decimal doubles, x row major with STRIDE columns)
    int rows = atoi(w[1].c_str()), cols = atoi(w[2].c_str()), stride = atoi(w[3].c_str()), hasy = atoi(w[4].c_str()), passes = atoi(w[5].c_str());
    std::vector<double> y, x; size_t at = 7;
    if (hasy) for (int i = 0; i < rows; ++i) y.push_back(strtod(w[at++].c_str(), 0));
    for (int i = 0; i < (rows - 1) * stride + cols && rows > 0; ++i) x.push_back(strtod(w[at++].c_str(), 0));
    double* base = x.data(); long step = stride * (long)sizeof(double);
    char lay = w[0].size() > 2 ? w[0][2] : ' '; void* area = nullptr; size_t len = 0;
    if (lay == 'b') {                // rows backwards in memory
      std::vector<double> z(x.size() + stride);
      for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) z[(rows - 1 - i) * stride + j] = x[i * stride + j];
      x = z; base = x.data() + (rows - 1) * stride; step = -step;
    } else if (lay == 'f') {         // rows a gigabyte apart
      step = 1L << 30; len = size_t(step) * rows;
      area = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (area == MAP_FAILED) _exit(3);
      for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) ((double*)((char*)area + i * step))[j] = x[i * stride + j];
      base = (double*)area;
    }
    if (w[6] == "reader") {
      OpenRead("numpy", NumpyReader::GeneratePath(base, hasy ? y.data() : nullptr, rows, cols, (int)step), passes);
    } else {
      void* it = sol_CreateDataIter(2, 2);
      npy_intp dims[2] = {rows, cols}, strides[2] = {(npy_intp)step, sizeof(double)};
      Before(it);
      int st = sol_loadArray(it, (char*)base, hasy ? (char*)y.data() : nullptr, dims, strides, passes);
      Ev(F("{\"e\":\"open\",\"st\":%d}", st));
      MiniBatch* mb = nullptr; DataIter* di = (DataIter*)it;
      while ((mb = di->Next(mb)) != nullptr) for (int i = 0; i < mb->size(); ++i) Ev("{\"e\":\"rec\",\"st\":0," + RecJson((*mb)[i]) + "}");
      Ev(F("{\"e\":\"rec\",\"st\":3,%s}", kNone));
      sol_ReleaseDataIter(&it);
    }
    if (area) munmap(area, len);
  } else if (k == "csr") {         // csr ROWS BASE HASY PASSES VIA y.. indptr(rows+1).. NNZ col.. val..
    int rows = atoi(w[1].c_str()), hasy = atoi(w[3].c_str()), passes = atoi(w[4].c_str());
    std::vector<double> y, x; std::vector<int> ptr, col; size_t at = 6;
    if (hasy) for (int i = 0; i < rows; ++i) y.push_back(strtod(w[at++].c_str(), 0));
    for (int i = 0; i <= rows; ++i) ptr.push_back(atoi(w[at++].c_str()));
    int nnz = atoi(w[at++].c_str());
    for (int i = 0; i < nnz; ++i) col.push_back(atoi(w[at++].c_str()));
    for (int i = 0; i < nnz; ++i) x.push_back(strtod(w[at++].c_str(), 0));
    if (w[5] == "reader") {
      OpenRead("csr_matrix", CsrMatrixReader::GeneratePath(col.data(), ptr.data(), x.data(), hasy ? y.data() : nullptr, rows), passes);
    } else {
      void* it = sol_CreateDataIter(2, 2);
      Before(it);
      int st = sol_loadCsrMatrix(it, (char*)col.data(), (char*)ptr.data(), (char*)x.data(), hasy ? (char*)y.data() : nullptr, rows, passes);
      Ev(F("{\"e\":\"open\",\"st\":%d}", st));
      MiniBatch* mb = nullptr; DataIter* di = (DataIter*)it;
      while ((mb = di->Next(mb)) != nullptr) for (int i = 0; i < mb->size(); ++i) Ev("{\"e\":\"rec\",\"st\":0," + RecJson((*mb)[i]) + "}");
      Ev(F("{\"e\":\"rec\",\"st\":3,%s}", kNone));
      sol_ReleaseDataIter(&it);
    }
  } else if (k == "desc") {        // desc FMT HEXPATH : open with a malformed description
    std::unique_ptr<DataReader> r(DataReader::Create(w[1]));
    int st = r->Open(iso::Unhex(w.size() > 2 ? w[2] : ""));
    Ev(F("{\"e\":\"refuse\",\"st\":%d}", st));
  }
#endif
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  g_dir = argv[3];
  if (!getenv("VERIF_ERR") && !freopen("/dev/null", "w", stderr)) return 2;
  if (!freopen("/dev/null", "w", stdout)) return 2;
  return iso::Run(argv[1], argv[2], 20, Do);
}
