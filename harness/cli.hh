#pragma once
// Running the built command-line tools.
#include "real.hh"
#include "runner.hh"
#include <poll.h>
#include <spawn.h>
#include <sys/wait.h>
extern char **environ;
namespace mon {
struct CliResult {
  int exit = -1;   // exit status, or -signal
  bool timeout = false, truncated = false; // truncated: more output than is kept
  std::string out, err;
};
inline void noteCrash(const std::string &bin, const CliResult &r) {
  std::string why;
  for (const char *key : {"ERROR: AddressSanitizer", "runtime error:", "Assertion", "terminate called"}) {
    size_t p = r.err.find(key);
    if (p != std::string::npos)
      why += " " + r.err.substr(p, std::min<size_t>(r.err.find('\n', p) - p, 300));
  }
  if (r.exit < 0 && !r.timeout)
    why = "killed by signal " + std::to_string(-r.exit) + why;
  if (!why.empty() && toolCrash().empty())
    toolCrash() = bin.substr(bin.rfind('/') + 1) + ": " + why;
}
inline CliResult runCli(const std::string &bin, const std::vector<std::string> &args,
                        const std::string &input, double limit = 20) {
  CliResult r;
  if (crashOnly())
    limit *= 4;
  int in[2], out[2], err[2];
  if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC) || pipe2(err, O_CLOEXEC)) {
    perror("pipe");
    _exit(3);
  }
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, in[0], 0);
  posix_spawn_file_actions_adddup2(&fa, out[1], 1);
  posix_spawn_file_actions_adddup2(&fa, err[1], 2);
  std::vector<char *> av;
  av.push_back(const_cast<char *>(bin.c_str()));
  for (auto &a : args)
    av.push_back(const_cast<char *>(a.c_str()));
  av.push_back(nullptr);
  pid_t pid;
  int rc = posix_spawn(&pid, bin.c_str(), &fa, nullptr, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  ::close(in[0]);
  ::close(out[1]);
  ::close(err[1]);
  if (rc != 0) {
    fprintf(stderr, "cannot run %s\n", bin.c_str());
    _exit(3);
  }
  signal(SIGPIPE, SIG_IGN);
  size_t off = 0;
  bool inOpen = true;
  if (input.empty()) {
    ::close(in[1]);
    inOpen = false;
  } else
    fcntl(in[1], F_SETFL, O_NONBLOCK);
  int openOut = 2;
  struct pollfd p[3];
  int fds[2] = {out[0], err[0]};
  bool op[2] = {true, true};
  const double t0 = now();
  while (openOut > 0) {
    int n = 0;
    int map[3];
    for (int i = 0; i < 2; i++)
      if (op[i]) {
        p[n] = {fds[i], POLLIN, 0};
        map[n++] = i;
      }
    if (inOpen) {
      p[n] = {in[1], POLLOUT, 0};
      map[n++] = 2;
    }
    int k = poll(p, n, 200);
    if (now() - t0 > limit) {
      kill(pid, SIGKILL);
      r.timeout = true;
      break;
    }
    if (k <= 0)
      continue;
    for (int i = 0; i < n; i++) {
      if (!p[i].revents)
        continue;
      if (map[i] == 2) {
        ssize_t w = write(in[1], input.data() + off, input.size() - off);
        if (w > 0)
          off += size_t(w);
        if (off >= input.size() || (w < 0 && errno != EAGAIN)) {
          ::close(in[1]);
          inOpen = false;
        }
      } else {
        char buf[65536];
        ssize_t g = read(fds[map[i]], buf, sizeof buf);
        if (g > 0) {
          std::string &dst = map[i] == 0 ? r.out : r.err;
          if (dst.size() < (64u << 20))
            dst.append(buf, size_t(g));
          else
            r.truncated = true;
        } else {
          op[map[i]] = false;
          openOut--;
        }
      }
    }
  }
  if (inOpen)
    ::close(in[1]);
  ::close(out[0]);
  ::close(err[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  r.exit = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  noteCrash(bin, r);
  return r;
}
inline std::string binFromEnv(const char *name) {
  const char *p = getenv(name);
  if (!p) {
    fprintf(stderr, "%s is not set\n", name);
    _exit(3);
  }
  return p;
}
// The printed form of the results, as documented in doc/getting_started.md:
// three lines `l (<|<=) X (<|<=) u` for t, t' and t' - t and a line of `=`.
inline bool parseZones(const std::string &text, std::vector<RepZone> &zs, std::string &why) {
  std::istringstream in(text);
  std::string line;
  int k = 0;
  RepZone z;
  auto num = [](const std::string &s, double &v) {
    char *e = nullptr;
    v = strtod(s.c_str(), &e);
    return !s.empty() && *e == 0;
  };
  while (std::getline(in, line)) {
    if (k == 3) {
      if (line.empty() || line.find_first_not_of('=') != std::string::npos) {
        why = "separator expected, found: " + line;
        return false;
      }
      zs.push_back(z);
      z = RepZone();
      k = 0;
      continue;
    }
    std::vector<std::string> f;
    std::istringstream s(line);
    std::string x;
    while (s >> x)
      f.push_back(x);
    std::string name;
    for (size_t i = 2; i + 2 < f.size(); i++)
      name += (i > 2 ? " " : "") + f[i];
    static const char *want[] = {"t", "t'", "t' - t"};
    double lo, hi;
    if (f.size() < 5 || name != want[k] || !num(f[0], lo) || !num(f.back(), hi) ||
        (f[1] != "<" && f[1] != "<=") ||
        (f[f.size() - 2] != "<" && f[f.size() - 2] != "<=")) {
      why = "unexpected line: " + line;
      return false;
    }
    Bounds l(-lo, f[1] == "<="), u(hi, f[f.size() - 2] == "<=");
    (k == 0 ? z.lt : k == 1 ? z.ltp : z.ld) = l;
    (k == 0 ? z.ut : k == 1 ? z.utp : z.ud) = u;
    k++;
  }
  if (k != 0) {
    why = "truncated output";
    return false;
  }
  return true;
}
} // namespace mon
