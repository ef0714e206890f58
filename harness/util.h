#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace hutil {

// Runs `body` in a child process; `emit` lines (one JSON value each) come back in order. A crash, a
// non-zero exit or a timeout of the child becomes a final event that no specification accepts.
inline double seconds() {        // not std::chrono: some harnesses replace its clocks
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) / 1e9;
}

inline std::vector<std::string> forked(const std::function<void(const std::function<void(const std::string&)>&)>& body,
                                       double timeout_s) {
  int fd[2];
  if (pipe(fd)) _exit(3);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    setpgid(0, 0);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit memory = {3ul << 30, 3ul << 30};   // a run that only allocates must not take the machine with it
    setrlimit(RLIMIT_AS, &memory);
#endif
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0 && !getenv("VERIF_DEBUG")) { dup2(nul, 1); dup2(nul, 2); }
    std::string out;
    auto flush = [&]() {
      std::size_t o = 0;
      while (o < out.size()) {
        ssize_t k = write(fd[1], out.data() + o, out.size() - o);
        if (k <= 0) _exit(4);
        o += k;
      }
      out.clear();
    };
    auto emit = [&](const std::string& s) {
      out += s;
      out += '\n';
      flush();
    };
    try {
      body(emit);
    } catch (const std::exception& e) {
      std::string why = e.what();
      for (auto& c : why) if (c == '"' || c == '\\' || (unsigned char)c < 32) c = '\'';
      emit("{\"e\":\"crash\",\"why\":\"exception: " + why + "\"}");
    } catch (...) {
      emit("{\"e\":\"crash\",\"why\":\"exception\"}");
    }
    flush();
    _exit(0);
  }
  close(fd[1]);
  std::string buf;
  std::vector<std::string> lines;
  static int overdue = 0;          // when many runs do not end, do not wait as long for the next ones
  if (overdue >= 3 && timeout_s > 2) timeout_s = timeout_s / 5 > 2 ? timeout_s / 5 : 2;
  if (overdue >= 8) timeout_s = 1;
  if (overdue >= 40) timeout_s = 0.2;
  double t0 = seconds();
  bool timed_out = false;
  std::size_t total = 0;
  char tmp[65536];
  for (;;) {
    double left = timeout_s - (seconds() - t0);
    if (left <= 0) { timed_out = true; break; }
    struct pollfd p = {fd[0], POLLIN, 0};
    int r = poll(&p, 1, int(left * 1000) + 1);
    if (r < 0) continue;
    if (r == 0) { timed_out = true; break; }
    ssize_t k = read(fd[0], tmp, sizeof tmp);
    if (k <= 0) break;
    if ((total += std::size_t(k)) > (256ul << 20)) { timed_out = true; lines.clear(); break; }   // a run that only talks
    buf.append(tmp, k);
    std::size_t pos;
    while ((pos = buf.find('\n')) != std::string::npos) {
      lines.push_back(buf.substr(0, pos));
      buf.erase(0, pos + 1);
    }
  }
  close(fd[0]);
  if (timed_out) { overdue++; kill(-pid, SIGKILL); kill(pid, SIGKILL); }
  int st = 0;
  waitpid(pid, &st, 0);
  if (timed_out) lines.push_back("{\"e\":\"crash\",\"why\":\"no end within the time limit\"}");
  else if (WIFSIGNALED(st)) lines.push_back("{\"e\":\"crash\",\"why\":\"signal " + std::to_string(WTERMSIG(st)) + "\"}");
  else if (WEXITSTATUS(st) != 0) lines.push_back("{\"e\":\"crash\",\"why\":\"exit " + std::to_string(WEXITSTATUS(st)) + "\"}");
  return lines;
}

inline std::string join(const std::vector<std::string>& v, const char* sep = ",") {
  std::string o;
  for (std::size_t i = 0; i < v.size(); i++) { if (i) o += sep; o += v[i]; }
  return o;
}

template <typename F>
std::string attempt(F f) {  // "" or the reason it was refused
  try { f(); } catch (const std::exception& e) { return std::string("x:") + e.what(); } catch (...) { return "x:?"; }
  return "";
}

}  // namespace hutil
