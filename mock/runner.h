// Runs generated tests, compiled into this program, under given schedules.
//
// Job file: lines "P <index>" selecting a program, then "R <token>*" runs.  After a line "V", results of animated
// programs also have what they wrote on standard output.  Tokens are hex-encoded fields
// kind[,topic[,text]].  Results: one line per run: "ok <rc> <hex log> <subs> <adv> <npubs> <pubs of last step> <stopped>"
// or "crash <what>".
#pragma once
#include "verif_mock.h"
#include <csignal>
#include <cstring>
#include <fstream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

namespace verif {
inline World& theWorld() { static World w; return w; }
World& world() { return theWorld(); }

typedef std::function<int()> Main;
inline std::vector<Main>& registry() { static std::vector<Main> r; return r; }
inline int call(int (*f)(int, char**)) {
  static char name[] = "test"; char* argv[] = {name, nullptr}; return f(1, argv);
}
inline int call(int (*f)()) { return f(); }

inline std::string unhex(const std::string& s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
inline std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r = "-";
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
inline std::vector<std::string> split(const std::string& s, char sep) {
  std::vector<std::string> r; std::string cur;
  for (char c : s) if (c == sep) { r.push_back(cur); cur.clear(); } else cur += c;
  r.push_back(cur);
  return r;
}

// Discards what is written to it, ending the process if it is far too much.
struct Bin : std::streambuf {
  size_t n = 0, max = 1 << 20;
  int overflow(int c) override { if (++n > max) _exit(77); return c; }
  std::streamsize xsputn(const char*, std::streamsize k) override { if ((n += k) > max) _exit(77); return k; }
};

struct Run { size_t prog; bool all; std::vector<std::string> toks; };

inline std::string one(const Run& r, bool animate) {
  std::ostringstream out;
  int rc;
  std::string log;
  if (animate) {
    std::string in;
    for (auto& t : r.toks) in += unhex(t);
    std::istringstream is(in);
    std::ostringstream err;
    Bin bin;
    std::ostringstream said;
    auto* ci = std::cin.rdbuf(is.rdbuf()); auto* co = r.all ? std::cout.rdbuf(said.rdbuf()) : std::cout.rdbuf(&bin); auto* ce = std::cerr.rdbuf(err.rdbuf());
    auto* cl = std::clog.rdbuf(&bin);
    std::cin.clear(); std::cout.clear(); std::cerr.clear();
    rc = registry()[r.prog]();
    std::cin.rdbuf(ci); std::cout.rdbuf(co); std::cerr.rdbuf(ce); std::clog.rdbuf(cl);
    out << "ok " << (rc & 255) << ' ' << hex(err.str());
    if (r.all) out << ' ' << hex(said.str());
    return out.str();
  }
  std::vector<Token> ts;
  for (auto& t : r.toks) {
    auto f = split(t, ',');
    Token k; k.kind = f[0][0];
    if (f.size() > 1) k.topic = unhex(f[1]);
    if (f.size() > 2) k.text = unhex(f[2]);
    ts.push_back(k);
  }
  ts.push_back({'Q', "", ""});
  World& w = world();
  w.reset(ts);
  Bin bin; auto* co = std::cout.rdbuf(&bin);
  rc = registry()[r.prog]();
  std::cout.rdbuf(co);
  out << "ok " << (rc & 255) << ' ' << hex(w.log.str()) << ' ';
  for (size_t i = 0; i < w.subs.size(); i++) out << (i ? "," : "") << hex(w.subs[i].topic);
  out << ";";
  for (size_t i = 0; i < w.advertised.size(); i++) out << (i ? "," : "") << hex(w.advertised[i]);
  out << ' ' << w.pubs.size();
  // Publications made after the last event was delivered count for the last step.
  auto& p = w.pubs.back();
  out << ' ';
  for (size_t i = 0; i < p.size(); i++) out << (i ? "," : "") << hex(p[i].first) << ":" << hex(p[i].second);
  out << ' ' << (w.stopped ? 1 : 0);
  return out.str();
}

inline int runAll(const char* jobs, const char* results, bool animate) {
  std::vector<Run> runs;
  {
    std::ifstream in(jobs);
    std::string line; size_t prog = 0; bool all = false;
    while (std::getline(in, line)) {
      if (line[0] == 'P') { prog = strtoul(line.c_str() + 2, nullptr, 10); continue; }
      if (line[0] == 'V') { all = true; continue; }
      Run r; r.prog = prog; r.all = all;
      auto f = split(line, ' ');
      for (size_t i = 1; i < f.size(); i++) if (!f[i].empty()) r.toks.push_back(f[i]);
      runs.push_back(r);
    }
  }
  std::ofstream res(results);
  size_t at = 0; unsigned crashes = 0;
  while (at < runs.size()) {
    int fd[2];
    if (pipe(fd)) return 3;
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      close(fd[0]);
      struct rlimit rl = {2u << 30, 2u << 30};
      setrlimit(RLIMIT_AS, &rl);
      struct rlimit nc = {0, 0};
      setrlimit(RLIMIT_CORE, &nc);
      FILE* f = fdopen(fd[1], "w");
      for (; at < runs.size(); at++) {
        if (at % 64 == 0) fflush(f);
        alarm(3);
        std::string s = one(runs[at], animate);
        alarm(0);
        fwrite(s.data(), 1, s.size(), f); fputc('\n', f);
        fflush(f);
      }
      fclose(f);
      _exit(0);
    }
    close(fd[1]);
    FILE* f = fdopen(fd[0], "r");
    char* buf = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&buf, &cap, f)) > 0) { if (buf[n - 1] != '\n') break; res.write(buf, n); at++; }
    free(buf);
    fclose(f);
    int st = 0;
    waitpid(pid, &st, 0);
    if (at < runs.size()) {
      // The run at `at` brought the process down.
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) res << "crash hang\n";
      else if (WIFSIGNALED(st)) res << "crash signal " << WTERMSIG(st) << "\n";
      else res << "crash " << (WEXITSTATUS(st) == 77 ? "hang" : "exit") << "\n";
      at++;
      if (++crashes > 200) { for (; at < runs.size(); at++) res << "crash skipped\n"; }
    }
  }
  return 0;
}
}  // namespace verif
