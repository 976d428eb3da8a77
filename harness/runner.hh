#pragma once
// Shard runner: generates cases from (seed, index), journals each one before it
// runs, executes it against the real code in a forked worker, and turns every
// violation, crash and hang into a replayable case file.
#include "core.hh"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>

namespace mon {

struct Ctx {
  Stats &st;
  bool nontrivial = false;
  std::string skip; // non-empty: the case says nothing (counted)
  std::vector<std::string> violations;
  explicit Ctx(Stats &s) : st(s) {}
  void violate(const std::string &m) {
    if (violations.size() < 4)
      violations.push_back(m);
  }
};
// MON_ONLY_CRASH: only crashes, sanitizer reports and hangs count (memory safety)
inline bool crashOnly() {
  static const bool b = getenv("MON_ONLY_CRASH") != nullptr;
  return b;
}
// set when a tool started by the case died from a signal or a sanitizer
inline std::string &toolCrash() {
  static std::string s;
  return s;
}
struct Monitor {
  std::string name;
  // may return "" when the draw is not usable
  std::function<std::string(Rng &, uint64_t)> gen;
  std::function<void(const std::string &, Ctx &)> check;
  double cpuLimit = 20; // seconds of CPU per case; three times that on the re-run
  double heavyLimit = 3; // for cases that start with "heavy": inconclusive
};

struct Shared {
  volatile uint64_t index;   // case being run
  volatile uint64_t done;    // cases finished
  volatile int timedOut;
  char casebuf[1 << 18];
  char stats[1 << 18];
};
inline Shared *&shared() {
  static Shared *s = nullptr;
  return s;
}
inline void onProf(int) {
  shared()->timedOut = 1;
  _exit(97);
}
inline void armCpu(double s) {
  struct itimerval it = {};
  it.it_value.tv_sec = long(s);
  it.it_value.tv_usec = long((s - long(s)) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}
inline std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
inline void spit(const std::string &p, const std::string &c) {
  std::ofstream f(p, std::ios::binary);
  f << c;
}

inline int runnerMain(int argc, char **argv, std::vector<Monitor> ms) {
  std::string name = argc > 1 ? argv[1] : "";
  uint64_t seed = 1, cases = 1000, from = 0;
  int shard = 0, shards = 1;
  double timeCap = 60;
  std::string out = ".", replay;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed")
      seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases")
      cases = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--from")
      from = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--shard")
      shard = atoi(v.c_str());
    else if (k == "--shards")
      shards = atoi(v.c_str());
    else if (k == "--time")
      timeCap = atof(v.c_str());
    else if (k == "--out")
      out = v;
    else if (k == "--replay")
      replay = v;
  }
  Monitor *m = nullptr;
  for (auto &x : ms)
    if (x.name == name)
      m = &x;
  if (!m) {
    std::cerr << "no monitor " << name << "\n";
    return 3;
  }
  if (!replay.empty()) {
    Stats st;
    Ctx cx(st);
    std::string text = slurp(replay);
    std::cout << text << "\n";
    m->check(text, cx);
    if (crashOnly())
      cx.violations.clear();
    if (!toolCrash().empty())
      cx.violate(toolCrash());
    for (auto &v : cx.violations)
      std::cout << "VIOLATED: " << v << "\n";
    if (!cx.skip.empty())
      std::cout << "skipped: " << cx.skip << "\n";
    return cx.violations.empty() ? 0 : 1;
  }
  const uint64_t nameHash = hashStr(name);
  if (crashOnly()) { // the sanitizers slow everything down
    m->cpuLimit *= 5;
    m->heavyLimit *= 2;
  }
  shared() = static_cast<Shared *>(mmap(nullptr, sizeof(Shared),
                                        PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  Shared *sh = shared();
  const std::string pre = out + "/s" + std::to_string(shard);
  const std::string hashFile = pre + ".hash", errFile = pre + ".err";
  unlink(hashFile.c_str());
  uint64_t next = from + shard;
  const double t0 = now();
  long nviol = 0, crashes = 0, timeouts = 0, restarts = 0, ran = 0;
  std::vector<std::string> statBlocks;
  auto writeViol = [&](const std::string &kind, uint64_t k, const std::string &msg,
                       const std::string &text) {
    spit(pre + "-" + kind + "-" + std::to_string(k) + ".case",
         "# monitor " + name + " seed " + std::to_string(seed) + " case " +
             std::to_string(k) + "\n# " + kind + ": " + msg + "\n" + text);
    nviol++;
  };
  while (next < cases && now() - t0 < timeCap && nviol < 4 && timeouts < 40) {
    sh->timedOut = 0;
    sh->done = 0;
    sh->index = next;
    sh->casebuf[0] = 0;
    sh->stats[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = ::open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) {
        dup2(fd, 2);
        ::close(fd);
      }
      signal(SIGPROF, onProf);
      Stats st;
      std::ofstream hf(hashFile, std::ios::app | std::ios::binary);
      long viol = 0;
      double lastFlush = now();
      auto flush = [&] {
        std::string j = st.json();
        if (j.size() < sizeof(sh->stats))
          memcpy(sh->stats, j.c_str(), j.size() + 1);
        for (uint64_t h : st.distinct)
          hf.write(reinterpret_cast<const char *>(&h), 8);
        hf.flush();
        st.distinct.clear();
        lastFlush = now();
      };
      for (uint64_t k = next; k < cases; k += shards) {
        if (now() - t0 > timeCap)
          break;
        sh->index = k;
        Rng r(mix(seed ^ nameHash, k));
        sh->casebuf[0] = 0;
        armCpu(m->cpuLimit);
        std::string text = m->gen(r, k);
        if (!text.empty()) {
          size_t n = std::min(text.size(), sizeof(sh->casebuf) - 1);
          memcpy(sh->casebuf, text.data(), n);
          sh->casebuf[n] = 0;
          Ctx cx(st);
          const bool heavy = text.compare(0, 6, "heavy\n") == 0;
          armCpu(heavy ? m->heavyLimit : m->cpuLimit);
          const double c0 = now();
          toolCrash().clear();
          m->check(text, cx);
          if (crashOnly())
            cx.violations.clear();
          if (!toolCrash().empty())
            cx.violate(toolCrash());
          const double dt = now() - c0;
          if (dt > 1)
            st[heavy ? "heavy_cases_over_1s" : "slow_cases_over_1s"]++;
          if (!heavy)
            st["max:case_ms"] = std::max(st["max:case_ms"], long(dt * 1000));
          st["evaluations"]++;
          if (!cx.skip.empty())
            st["inconclusive:" + cx.skip]++;
          if (cx.nontrivial && cx.skip.empty()) {
            if (st.distinct.insert(hashStr(text)).second)
              st.sample(text);
          }
          if (!cx.violations.empty()) {
            std::string msg;
            for (auto &v : cx.violations)
              msg += (msg.empty() ? "" : " || ") + v;
            for (auto &ch : msg)
              if (ch == '\n')
                ch = ' ';
            writeViol("violation", k, msg, text);
            if (++viol >= 4)
              break;
          }
        }
        armCpu(0);
        sh->done = sh->done + 1;
        if (now() - lastFlush > 0.5)
          flush();
      }
      armCpu(0);
      flush();
      hf.close();
      fflush(nullptr);
      _exit(viol ? 96 : 0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
      ;
    ran += sh->done;
    if (sh->stats[0])
      statBlocks.push_back(sh->stats);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
      break;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 96) {
      nviol++;
      break;
    }
    restarts++;
    const uint64_t k = sh->index;
    if (sh->timedOut) {
      const bool heavy = strncmp(sh->casebuf, "heavy\n", 6) == 0;
      if (!heavy) {
        // re-run once, with more time, before reporting a hang
        const std::string text = sh->casebuf;
        fflush(nullptr);
        pid_t p2 = fork();
        if (p2 == 0) {
          signal(SIGPROF, onProf);
          armCpu(3 * m->cpuLimit);
          Stats st;
          Ctx cx(st);
          m->check(text, cx);
          _exit(0);
        }
        int st2 = 0;
        while (waitpid(p2, &st2, 0) < 0 && errno == EINTR)
          ;
        if (WIFEXITED(st2) && WEXITSTATUS(st2) == 97) {
          writeViol("hang", k, "CPU limit of " + std::to_string(3 * m->cpuLimit) +
                                   " s exceeded twice", text);
          next = k + shards;
          continue;
        }
      }
      timeouts++;
      spit(pre + "-timeout-" + std::to_string(k) + ".case",
           "# monitor " + name + " seed " + std::to_string(seed) + " case " +
               std::to_string(k) + "\n# timeout: CPU limit of " +
               std::to_string(m->cpuLimit) + " s exceeded\n" + sh->casebuf);
    } else {
      std::string err = slurp(errFile);
      std::string msg;
      if (WIFSIGNALED(status))
        msg = "killed by signal " + std::to_string(WTERMSIG(status));
      else
        msg = "exit status " + std::to_string(WEXITSTATUS(status));
      for (const char *key : {"ERROR: AddressSanitizer", "runtime error:", "Assertion",
                              "terminate called", "what():"}) {
        size_t p = err.find(key);
        if (p != std::string::npos) {
          size_t e = err.find('\n', p);
          msg += "; " + err.substr(p, std::min<size_t>(e - p, 300));
        }
      }
      spit(pre + "-crash-" + std::to_string(k) + ".err", err.substr(0, 20000));
      crashes++;
      writeViol("crash", k, msg, sh->casebuf);
    }
    next = k + shards;
  }
  std::ofstream o(pre + ".json");
  o << "{\"ran\":" << ran << ",\"crashes\":" << crashes << ",\"timeouts\":" << timeouts
    << ",\"restarts\":" << restarts << ",\"wall\":" << (now() - t0) << ",\"blocks\":[";
  for (size_t i = 0; i < statBlocks.size(); i++)
    o << (i ? "," : "") << statBlocks[i];
  o << "]}";
  return 0;
}

} // namespace mon
