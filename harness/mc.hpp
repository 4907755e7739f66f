// A small exhaustive explorer for bounded spaces of inputs, operation
// sequences and histories, run on the real library.
//
// A harness registers suites. A suite enumerates its bounded space in a fixed
// order and calls Ctx::leaf() once per element; the element is executed on the
// real code and compared with a reference model by Ctx::check(). The space is
// sharded over forked workers, so that an abort, a signal or a hang in the code
// under test is attributed to the leaf that caused it. Everything is
// deterministic: a leaf is identified by (suite, index) and can be replayed on
// its own.
#pragma once
#include <fcntl.h>
#include <fnmatch.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace mc {

struct Failure {
  std::string msg;
};

struct Shared {
  std::atomic<uint64_t> index;  // the leaf being executed, 1-based; 0 before the first
  std::atomic<uint64_t> beat;   // changes whenever the worker makes progress
  std::atomic<uint64_t> leaves;
  std::atomic<uint64_t> trans;
  std::atomic<uint64_t> total;  // the leaves seen, in and outside of this shard
  std::atomic<int> failed;  // there is a violation
  std::atomic<int> stop;    // do not start another leaf
  std::atomic<int> capped;
  std::atomic<int> done;
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

inline std::string json_escape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 32) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r;
}

class Ctx {
 public:
  bool thorough = false;
  Shared* sh = nullptr;
  uint64_t shard = 0, nshards = 1;
  uint64_t resume = 0;      // skip leaves with index <= resume
  uint64_t only = 0;        // replay this single leaf
  uint64_t upto = 0;        // replay the shard up to (and including) this leaf
  FILE* out = nullptr;      // where failures go
  std::unordered_set<uint64_t> states;
  std::map<std::string, uint64_t> outcomes;
  std::vector<std::string> samples;
  uint64_t idx = 0, mine = 0;
  int failures = 0;
  int maxfail = 12;
  const std::set<std::string>* known = nullptr;  // the cases of this suite that are recorded findings
  std::chrono::steady_clock::time_point deadline;
  struct Stop {};

  // Execute one element of the bounded space.
  template <typename D, typename B>
  void leaf(D&& desc, B&& body) {
    ++idx;
    sh->total.store(idx, std::memory_order_relaxed);
    if (only) {
      if (idx < only) return;
      if (idx > only) throw Stop{};
    } else {
      if (upto && idx > upto) throw Stop{};
      if (idx % nshards != shard || idx <= resume) return;
    }
    if (sh->stop || (++mine % 16 == 0 && std::chrono::steady_clock::now() > deadline)) {
      sh->capped = 1;
      throw Stop{};
    }
    sh->index.store(idx, std::memory_order_relaxed);
    sh->beat.fetch_add(1, std::memory_order_relaxed);
    if (only) {
      std::cout << "leaf " << idx << ": " << desc() << std::endl;
    }
    std::string msg;
    bool failed = false;
    try {
      body();
    } catch (const Failure& f) {
      failed = true;
      msg = f.msg;
    } catch (const std::exception& e) {
      failed = true;
      msg = std::string("unexpected exception: ") + e.what();
    }
    sh->leaves.fetch_add(1, std::memory_order_relaxed);
    if (samples.size() < 2 && (idx % 97 == 1 || samples.empty())) samples.push_back(desc());
    if (failed) {
      std::string d = desc();
      const bool isknown = known && known->count(d);
      if (!isknown || only) failures++, sh->failed = 1;
      fprintf(out, "{\"known\": %s, \"index\": %llu, \"case\": \"%s\", \"msg\": \"%s\"}\n", isknown ? "true" : "false", (unsigned long long)idx, json_escape(d).c_str(), json_escape(msg).c_str());
      fflush(out);
      if (only || upto) std::cout << "FAILED: " << d << ": " << msg << std::endl;
      if (failures >= maxfail) {
        sh->capped = 1;
        throw Stop{};
      }
    }
  }

  template <typename M>
  void check(bool ok, M&& msg) {
    sh->trans.fetch_add(1, std::memory_order_relaxed);
    if (!ok) {
      if constexpr (std::is_convertible_v<M, std::string>)
        throw Failure{msg};
      else
        throw Failure{msg()};
    }
  }
  void trans(uint64_t n = 1) { sh->trans.fetch_add(n, std::memory_order_relaxed); }
  void beat() { sh->beat.fetch_add(1, std::memory_order_relaxed); }
  bool state(uint64_t h) { return states.insert(h).second; }
  bool state(const std::string& s) { return state(fnv(s.data(), s.size())); }
  void outcome(const std::string& s) { outcomes[s]++; }
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
};

struct Suite {
  const char* name;
  void (*run)(Ctx&);
  int tiers;  // 1: quick and thorough, 2: thorough only
};
inline std::vector<Suite>& suites() {
  static std::vector<Suite> s;
  return s;
}
struct Register {
  Register(const char* n, void (*f)(Ctx&), int tiers = 1) { suites().push_back({n, f, tiers}); }
};
#define MC_SUITE(name)                             \
  static void mc_suite_##name(mc::Ctx&);           \
  static mc::Register mc_reg_##name(#name, mc_suite_##name); \
  static void mc_suite_##name(mc::Ctx& c)

template <typename... A>
std::string str(const A&... a) {
  std::ostringstream s;
  ((s << a), ...);
  return s.str();
}

// Printing something leaves the format of the stream as it was.
template <typename T>
void keeps_format(Ctx& c, const T& x) {
  const std::ios_base::fmtflags flags[] = {std::ios_base::dec | std::ios_base::skipws, std::ios_base::hex | std::ios_base::showbase | std::ios_base::uppercase, std::ios_base::oct | std::ios_base::showpos, std::ios_base::dec | std::ios_base::scientific | std::ios_base::right, std::ios_base::dec | std::ios_base::fixed | std::ios_base::left | std::ios_base::boolalpha, std::ios_base::fmtflags()};
  for (auto f : flags)
    for (int precision : {0, 3, 6, 17}) {
      std::ostringstream s;
      s.flags(f);
      s.precision(precision);
      s.fill('#');
      auto& r = (s << x);
      c.check(&r == &s, "printing returns another stream");
      c.check(s.good() && s.exceptions() == std::ios_base::goodbit, "printing leaves the stream in a bad state");
      c.check(s.flags() == f && s.precision() == precision && s.fill() == '#', [&] { return "printing changes the format of the stream with flags " + std::to_string(f) + " and precision " + std::to_string(precision); });
    }
}

inline int main(int argc, char** argv) {
  std::string out = "", tier = "quick", replay, work = ".";
  int jobs = 8;
  double deadline = 780, leaf_timeout = 60;
  uint64_t replay_idx = 0, replay_shard = 0, replay_nshards = 0;
  std::set<std::string> want;
  std::map<std::string, std::set<std::string>> known;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = val();
    else if (a == "--tier") tier = val();
    else if (a == "--jobs") jobs = std::stoi(val());
    else if (a == "--deadline") deadline = std::stod(val());
    else if (a == "--leaf-timeout") leaf_timeout = std::stod(val());
    else if (a == "--work") work = val();
    else if (a == "--suite") want.insert(val());
    else if (a == "--known") {
      std::ifstream k(val());
      std::string line;
      while (std::getline(k, line)) known[line.substr(0, line.find('\t'))].insert(line.substr(line.find('\t') + 1));
    }
    else if (a == "--replay") { replay = val(); replay_idx = std::stoull(val()); }
    else if (a == "--replay-prefix") { replay = val(); replay_idx = std::stoull(val()); replay_shard = std::stoull(val()); replay_nshards = std::stoull(val()); }
    else { std::cerr << "unknown option " << a << std::endl; return 2; }
  }
  struct rlimit rl;
#ifndef MC_SANITIZED
  rl.rlim_cur = rl.rlim_max = 4ull << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  auto t0 = std::chrono::steady_clock::now();
  bool violated = false, killed = false;
  auto end = t0 + std::chrono::milliseconds(static_cast<long>(deadline * 1000));
  auto shared = [] { return static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); };

  if (!replay.empty()) {
    for (auto& s : suites())
      if (replay == s.name) {
        Ctx c;
        c.thorough = tier == "thorough";
        c.sh = shared();
        c.out = stderr;
        c.deadline = std::chrono::steady_clock::time_point::max();
        if (replay_nshards) {
          c.upto = replay_idx;
          c.shard = replay_shard;
          c.nshards = replay_nshards;
          c.maxfail = 1 << 30;
        } else
          c.only = replay_idx;
        try {
          s.run(c);
        } catch (const Ctx::Stop&) {
        }
        _exit(c.failures ? 1 : 0);
      }
    std::cerr << "no such suite" << std::endl;
    return 2;
  }

  FILE* res = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(res, "{\"suites\": [");
  bool firstsuite = true, hung = false;
  for (auto& s : suites()) {
    if (hung || killed || (violated && std::chrono::steady_clock::now() > end)) break;
    if (!want.empty() && std::none_of(want.begin(), want.end(), [&](const std::string& w) { return fnmatch(w.c_str(), s.name, 0) == 0; })) continue;
    if (s.tiers == 2 && tier != "thorough") continue;
    auto s0 = std::chrono::steady_clock::now();
    struct W {
      pid_t pid = 0;
      Shared* sh = nullptr;
      std::string file;
      uint64_t beat = 0;
      std::chrono::steady_clock::time_point last;
      int restarts = 0;
      bool running = false;
    };
    std::vector<W> ws(jobs);
    std::vector<std::string> crashes;
    bool capped = false;
    auto start = [&](int k, uint64_t resume) {
      auto& w = ws[k];
      fflush(nullptr);
      w.sh->done = 0;
      pid_t pid = fork();
      if (pid == 0) {
        Ctx c;
        c.thorough = tier == "thorough";
        c.sh = w.sh;
        c.shard = k;
        c.nshards = jobs;
        c.resume = resume;
        c.deadline = end;
        c.known = &known[s.name];
        c.out = fopen((w.file + ".fail").c_str(), "a");
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        int err = open((w.file + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(err, 2);
        try {
          s.run(c);
        } catch (const Ctx::Stop&) {
        }
        std::ofstream st(w.file + ".states", std::ios::app | std::ios::binary);
        for (auto h : c.states) st.write(reinterpret_cast<const char*>(&h), sizeof h);
        st.close();
        std::ofstream oc(w.file + ".outcomes", std::ios::app);
        for (auto& o : c.outcomes) oc << o.second << "\t" << o.first << "\n";
        oc.close();
        std::ofstream sa(w.file + ".samples", std::ios::app);
        for (auto& x : c.samples) sa << json_escape(x) << "\n";
        sa.close();
        c.sh->done = 1;
        _exit(0);
      }
      w.pid = pid;
      w.running = true;
      w.beat = ~0ull;
      w.last = std::chrono::steady_clock::now();
    };
    for (int k = 0; k < jobs; k++) {
      ws[k].sh = shared();
      ws[k].file = work + "/" + s.name + "." + std::to_string(k);
      for (auto ext : {".fail", ".states", ".outcomes", ".samples", ".err"}) unlink((ws[k].file + ext).c_str());
      start(k, 0);
    }
    int running = jobs;
    while (running) {
      usleep(2000);
      // Once there is a violation, there is little to be learned from the rest.
      for (auto& w : ws)
        if (w.sh->failed && !violated) {
          violated = true;
          end = std::min(end, std::chrono::steady_clock::now() + std::chrono::seconds(60));
        }
      if (const auto t = std::chrono::steady_clock::now(); t > end) {
        for (auto& w : ws) w.sh->stop = 1;
        // A single execution can take too long.
        if (t > end + std::chrono::seconds(violated ? 30 : 90)) killed = true;
      }
      if (hung || killed)
        for (auto& w : ws)
          if (w.running) {
            kill(w.pid, SIGKILL);
            waitpid(w.pid, nullptr, 0);
            w.running = false;
            capped = true;
            running--;
          }
      for (int k = 0; k < jobs; k++) {
        auto& w = ws[k];
        if (!w.running) continue;
        int status;
        pid_t p = waitpid(w.pid, &status, WNOHANG);
        auto now = std::chrono::steady_clock::now();
        std::string what;
        if (p == w.pid) {
          w.running = false;
          if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && w.sh->done) {
            running--;
            if (w.sh->capped) capped = true;
            continue;
          }
          if (WIFSIGNALED(status))
            what = str("process died with signal ", WTERMSIG(status), " (", strsignal(WTERMSIG(status)), ")");
          else
            what = str("process exited with status ", WEXITSTATUS(status));
          std::ifstream e(w.file + ".err");
          std::string l, all;
          while (std::getline(e, l) && all.size() < 600) all += l + " | ";
          if (!all.empty()) what += ": " + all;
        } else {
          uint64_t b = w.sh->beat;
          if (b != w.beat) {
            w.beat = b;
            w.last = now;
            continue;
          }
          if (std::chrono::duration<double>(now - w.last).count() < leaf_timeout) continue;
          kill(w.pid, SIGKILL);
          waitpid(w.pid, &status, 0);
          w.running = false;
          what = str("no progress for ", leaf_timeout, " s");
          // Waiting for more of these would take forever; what is left is not explored.
          hung = true;
        }
        uint64_t at = w.sh->index;
        crashes.push_back(str("{\"index\": ", at, ", \"shard\": ", k, ", \"hung\": ", hung ? "true" : "false", ", \"crash\": true, \"case\": \"\", \"msg\": \"", json_escape(what), "\"}"));
        if (hung || ++w.restarts > 3 || crashes.size() > 10 || at == 0) {
          capped = true;
          running--;
          continue;
        }
        start(k, at);
      }
    }
    uint64_t leaves = 0, trans = 0, total = 0;
    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t> outcomes;
    std::vector<std::string> samples, fails;
    for (int k = 0; k < jobs; k++) {
      auto& w = ws[k];
      leaves += w.sh->leaves;
      trans += w.sh->trans;
      total = std::max<uint64_t>(total, w.sh->total);
      std::ifstream st(w.file + ".states", std::ios::binary);
      uint64_t h;
      while (st.read(reinterpret_cast<char*>(&h), sizeof h)) states.insert(h);
      std::ifstream oc(w.file + ".outcomes");
      std::string line;
      while (std::getline(oc, line)) {
        auto t = line.find('\t');
        outcomes[line.substr(t + 1)] += std::stoull(line.substr(0, t));
      }
      std::ifstream sa(w.file + ".samples");
      while (std::getline(sa, line))
        if (samples.size() < 4) samples.push_back(line);
      std::ifstream fa(w.file + ".fail");
      while (std::getline(fa, line)) fails.push_back(line.substr(0, line.size() - 1) + str(", \"shard\": ", k, "}"));
      for (auto ext : {".fail", ".states", ".outcomes", ".samples", ".err"}) unlink((w.file + ext).c_str());
      munmap(w.sh, sizeof(Shared));
    }
    for (auto& x : crashes) fails.push_back(x);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - s0).count();
    fprintf(res, "%s\n{\"suite\": \"%s\", \"leaves\": %llu, \"space\": %llu, \"states\": %zu, \"transitions\": %llu, \"capped\": %s, \"jobs\": %d, \"wall_s\": %.2f, \"outcomes\": {", firstsuite ? "" : ",", s.name, (unsigned long long)leaves, (unsigned long long)total, states.size(), (unsigned long long)trans, capped ? "true" : "false", jobs, wall);
    firstsuite = false;
    bool first = true;
    for (auto& o : outcomes) {
      fprintf(res, "%s\"%s\": %llu", first ? "" : ", ", json_escape(o.first).c_str(), (unsigned long long)o.second);
      first = false;
    }
    fprintf(res, "}, \"samples\": [");
    first = true;
    for (auto& x : samples) {
      fprintf(res, "%s\"%s\"", first ? "" : ", ", x.c_str());
      first = false;
    }
    fprintf(res, "], \"failures\": [");
    first = true;
    for (auto& f : fails) {
      fprintf(res, "%s\n%s", first ? "" : ",", f.c_str());
      first = false;
    }
    fprintf(res, "]}");
    fflush(res);
  }
  fprintf(res, "\n], \"hung\": %s, \"stopped\": %s}\n", hung ? "true" : "false", violated || killed ? "true" : "false");
  if (res != stdout) fclose(res);
  return 0;
}
}  // namespace mc

#define MC_MAIN \
  int main(int argc, char** argv) { return mc::main(argc, argv); }
