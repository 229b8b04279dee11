// Runs numbered cases in forked children so that a crash, an uncaught exception or a hang of the code
// under test becomes the case's recorded ending instead of ending the driver.
#ifndef VERIF_ISOLATE_H
#define VERIF_ISOLATE_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace iso {
// fn(case line, emit): emit appends one JSON event to the case.
typedef std::function<void(const std::string&)> Emit;
struct Out { FILE* f; bool first; };
inline FILE*& Stream() { static FILE* f = nullptr; return f; }
inline bool& First() { static bool b = true; return b; }
inline void Ev(const std::string& s) { fprintf(Stream(), "%s%s", First() ? "" : ",", s.c_str()); First() = false; fflush(Stream()); }

inline int Run(const char* cases, const char* out, int timeout_s, const std::function<void(const std::string&)>& fn,
               const char* endfmt = "{\"e\":\"end\",\"op\":\"%s\"}") {
  std::vector<std::string> lines;
  { std::ifstream in(cases); std::string l; while (std::getline(in, l)) lines.push_back(l); }
  { FILE* f = fopen(out, "w"); if (!f) return 2; fclose(f); }
  size_t next = 0;
  int crashes = 0;
  while (next < lines.size()) {
    fflush(nullptr);
    int pfd[2]; if (pipe(pfd)) return 2;
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      close(pfd[0]);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      FILE* f = fopen(out, "a");
      Stream() = f;
      for (size_t i = next; i < lines.size(); ++i) {
        alarm(timeout_s);
        First() = true;
        fprintf(f, "{\"case\":%zu,\"ev\":[", i);
        fflush(f);
        uint32_t k = (uint32_t)i; if (write(pfd[1], &k, 4) != 4) _exit(3);
        bool thrown = false;
        try { fn(lines[i]); } catch (...) { thrown = true; }
        alarm(0);
        char e[256]; snprintf(e, sizeof e, endfmt, thrown ? "exception" : "ok");
        Ev(e);
        fprintf(f, "]}\n");
        fflush(f);
      }
      fclose(f);
      _exit(0);
    }
    close(pfd[1]);
    uint32_t cur = 0, k; bool any = false;
    while (read(pfd[0], &k, 4) == 4) { cur = k; any = true; }
    close(pfd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    if (!any || ++crashes > 200) return 3;
    // the child died inside case cur: finish its line (a partial event list is kept if it is well formed)
    FILE* f = fopen(out, "r+");
    fseek(f, 0, SEEK_END); long len = ftell(f); char c = 0;
    if (len > 0) { fseek(f, -1, SEEK_END); c = (char)fgetc(f); }
    fseek(f, 0, SEEK_END);
    char e[256]; snprintf(e, sizeof e, endfmt, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash");
    if (c != '\n') fprintf(f, "%s%s]}\n", c == '[' ? "" : ",", e);
    fclose(f);
    next = cur + 1;
  }
  return 0;
}

inline std::string Unhex(const std::string& h) {
  std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)(v(h[i]) * 16 + v(h[i + 1]));
  return r;
}
inline std::string F(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string F(const char* fmt, ...) {
  char buf[8192]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf;
}
inline void WriteFile(const std::string& p, const std::string& d) { std::ofstream o(p, std::ios::binary); o.write(d.data(), d.size()); }
inline std::string ReadFile(const std::string& p) { std::ifstream i(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
inline int Bits(float f) { int b; memcpy(&b, &f, 4); return b; }
inline void Hilo(double d, int& hi, int& lo) { int64_t b; memcpy(&b, &d, 8); hi = (int)(b >> 32); lo = (int)b; }
}  // namespace iso
#endif
