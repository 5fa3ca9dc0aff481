// Common part of the conformance drivers: reads a script of histories, runs each history in a child process of
// its own (a crash, a failed assertion or a hang ends that history only) and writes one JSON result per operation.
//
//   driver SCRIPT OUTPREFIX SCRATCH JOBS
//
// SCRIPT: "H <id>" starts a history, every other line is one operation (whitespace-separated tokens).
// OUTPREFIX.<job>: lines "<history> <op number> <json>"; a history that ends prematurely gets "<history> -1 {...}".
#pragma once
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <filesystem>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

struct Line {
  std::istringstream in;
  explicit Line(const std::string& s) : in(s) { }
  std::string word() { std::string w; if(!(in >> w)) { std::fprintf(stderr, "script: missing token in '%s'\n", in.str().c_str()); _exit(97); } return w; }
  long num() { return std::stol(word()); }
  double real() { return std::stod(word()); }
  std::vector<long> nums(std::size_t n) { std::vector<long> v(n); for(auto& x : v) x = num(); return v; }
};

template <class V> std::string js(const V& v) {
  std::string s = "[";
  bool first = true;
  for(auto x : v) { if(!first) s += ","; first = false; s += std::to_string((long)x); }
  return s + "]";
}

struct Reporter {
  int fd; int hist;
  void operator()(int opno, const std::string& json) {
    std::string s = std::to_string(hist) + " " + std::to_string(opno) + " " + json + "\n";
    std::size_t off = 0;
    while(off < s.size()) { ssize_t k = write(fd, s.data() + off, s.size() - off); if(k <= 0) _exit(98); off += k; }
  }
};

struct History { int id; std::vector<std::string> ops; };

// Body: runs one history in the current (scratch) directory
inline int harness_main(int argc, char* argv[], const std::function<void(const History&, Reporter&)>& body) {
  if(argc != 5) { std::fprintf(stderr, "usage: driver SCRIPT OUTPREFIX SCRATCH JOBS\n"); return 99; }
  std::vector<History> hists;
  {
    std::ifstream f(argv[1]);
    if(!f) { std::fprintf(stderr, "cannot read script\n"); return 99; }
    std::string l;
    while(std::getline(f, l)) {
      if(l.empty()) continue;
      if(l[0] == 'H') hists.push_back({std::stoi(l.substr(2)), {}});
      else hists.back().ops.push_back(l);
    }
  }
  int jobs = std::stoi(argv[4]);
  std::string scratch = std::filesystem::absolute(argv[3]).string();
  std::string outp = std::filesystem::absolute(argv[2]).string();
  std::vector<pid_t> pids;
  for(int j = 0; j < jobs; j++) {
    std::string of = outp + "." + std::to_string(j);
    pid_t p = fork();
    if(p < 0) return 99;
    if(p > 0) { pids.push_back(p); continue; }
    int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if(fd < 0) _exit(98);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if(!getenv("DRIVER_STDERR")) dup2(nul, 2);
    int killed = 0;
    for(std::size_t i = j; i < hists.size(); i += jobs) {
      if(killed >= 2) { Reporter rep{fd, hists[i].id}; rep(-2, "{\"skipped\":1}"); continue; }
      std::string wd = scratch + "/w" + std::to_string(j);
      std::filesystem::create_directories(wd);
      if(chdir(wd.c_str())) _exit(98);
      pid_t c = fork();
      if(c < 0) _exit(98);
      if(c == 0) {
        setpgid(0, 0);
        struct rlimit rl;
        rl.rlim_cur = rl.rlim_max = 20; setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &rl);
        rl.rlim_cur = rl.rlim_max = (rlim_t)1 << 30; setrlimit(RLIMIT_FSIZE, &rl);
        alarm(200);
        Reporter rep{fd, hists[i].id};
        body(hists[i], rep);
        _exit(0);
      }
      int st = 0;
      waitpid(c, &st, 0);
      if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        Reporter rep{fd, hists[i].id};
        if(WIFEXITED(st) && WEXITSTATUS(st) >= 97) _exit(WEXITSTATUS(st));   // the driver's own failure
        if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU) && ++killed) rep(-1, "{\"abort\":\"killed\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}");
        else rep(-1, "{\"abort\":\"crash\",\"sig\":" + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)) + "}");
      }
      if(chdir(scratch.c_str())) _exit(98);
      std::error_code ec;
      std::filesystem::remove_all(wd, ec);
    }
    close(fd);
    _exit(0);
  }
  int bad = 0;
  for(pid_t p : pids) { int st = 0; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)) bad = WIFEXITED(st) ? WEXITSTATUS(st) : 98; }
  return bad;
}
