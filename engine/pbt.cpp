#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" auto __asan_default_options() -> const char * {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:"
         "max_allocation_size_mb=3000:detect_stack_use_after_return=0:quarantine_size_mb=16:"
         "malloc_context_size=8:handle_abort=1:handle_sigfpe=1:print_summary=1";
}
extern "C" auto __ubsan_default_options() -> const char * {
  return "print_stacktrace=1:halt_on_error=1";
}

namespace pbt {

static std::string g_scratch;
auto scratch() -> const std::string & { return g_scratch; }

namespace {

using Clock = std::chrono::steady_clock;
auto nowMs() -> int64_t {
  return std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now().time_since_epoch())
      .count();
}

struct WorkerShm {
  std::atomic<int64_t> startMs; // 0: idle
  std::atomic<uint64_t> target;
  std::atomic<uint64_t> idx;
  std::atomic<int> done;
};

struct Stats {
  uint64_t evaluations = 0;
  uint64_t discarded = 0;
  uint64_t nontrivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

struct Found {
  size_t target = 0;
  uint64_t idx = 0;
  std::vector<uint64_t> choices; // empty + crashed: regenerate from idx
  std::string sig;
  std::string msg;
};

auto caseSeed(uint64_t seed, const std::string &prop, size_t target, uint64_t idx) -> uint64_t {
  uint64_t h = 1469598103934665603ULL;
  for (char c : prop) {
    h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
  }
  return mix64(mix64(mix64(h ^ seed * 0x2545F4914F6CDD1DULL) + target) + idx);
}

auto jsonEscape(const std::string &s) -> std::string {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c == '\t') {
      o += "\\t";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

void rmTree(const std::string &p) {
  if (p.find("pbt.") == std::string::npos) {
    return;
  }
  std::string cmd = "rm -rf '" + p + "'";
  if (system(cmd.c_str()) != 0) {
  }
}

void makeScratch(const std::string &dir) {
  mkdir(dir.c_str(), 0700);
  g_scratch = dir;
  if (chdir(dir.c_str()) != 0) {
  }
}

void quiet(const std::string &errFile) {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  close(n);
  int e = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  dup2(e, 2);
  close(e);
  // the code under test is chatty: drop its stream output early
  std::cout.setstate(std::ios_base::badbit);
  std::cerr.setstate(std::ios_base::badbit);
  std::clog.setstate(std::ios_base::badbit);
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
}

auto readFile(const std::string &p, size_t max = 1 << 20) -> std::string {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  std::string s = o.str();
  if (s.size() > max) {
    s.resize(max);
  }
  return s;
}

// summary of a sanitizer report or the way a process died
auto crashMessage(int status, const std::string &err) -> std::string {
  std::ostringstream o;
  if (WIFSIGNALED(status)) {
    o << "process killed by signal " << WTERMSIG(status) << " (" << strsignal(WTERMSIG(status))
      << ")";
  } else {
    o << "process exited with status " << WEXITSTATUS(status);
  }
  std::istringstream in(err);
  std::string line;
  int frames = 0;
  while (std::getline(in, line)) {
    if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos ||
        line.find("SUMMARY:") != std::string::npos || line.find("Assertion") != std::string::npos ||
        line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos) {
      o << "\n  " << line;
    } else if (line.find("    #") == 0 && frames < 12) {
      if (line.find("/repo/") != std::string::npos) {
        o << "\n  " << line;
        frames++;
      }
    }
  }
  return o.str();
}

enum class Outcome { Pass, Fail, Discarded };

auto runOne(const Target &t, Source &src, Case &c, Found &f) -> Outcome {
  try {
    t.fn(src, c);
    return Outcome::Pass;
  } catch (const Discard &) {
    return Outcome::Discarded;
  } catch (const Failure &e) {
    f.sig = e.sig;
    f.msg = e.msg;
  } catch (const std::exception &e) {
    f.sig = "uncaught-exception";
    f.msg = std::string("uncaught exception: ") + e.what();
  } catch (...) {
    f.sig = "uncaught-exception";
    f.msg = "uncaught exception of unknown type";
  }
  f.choices = src.choices();
  return Outcome::Fail;
}

void writeFound(const std::string &path, const Found &f, const std::string &desc) {
  std::ofstream o(path + ".tmp", std::ios::binary);
  o << f.target << " " << f.idx << " " << f.choices.size() << "\n";
  for (auto v : f.choices) {
    o << v << " ";
  }
  o << "\n" << f.sig << "\n" << f.msg.size() << "\n" << f.msg << "\n" << desc.size() << "\n" << desc;
  o.close();
  rename((path + ".tmp").c_str(), path.c_str());
}
auto readFound(const std::string &path, Found &f, std::string &desc) -> bool {
  std::ifstream i(path, std::ios::binary);
  size_t n = 0;
  if (!(i >> f.target >> f.idx >> n)) {
    return false;
  }
  f.choices.resize(n);
  for (auto &v : f.choices) {
    i >> v;
  }
  i.ignore(1);
  std::getline(i, f.sig);
  std::getline(i, f.sig);
  size_t m = 0;
  i >> m;
  i.ignore(1);
  f.msg.resize(m);
  i.read(f.msg.data(), static_cast<std::streamsize>(m));
  i >> m;
  i.ignore(1);
  desc.resize(m);
  i.read(desc.data(), static_cast<std::streamsize>(m));
  return true;
}

struct Attempt {
  bool failed = false;
  Found f;
  std::string desc;
};

// Runs one case (replay of a choice sequence, or regeneration of case idx) in a child process.
auto attempt(const Config &cfg, size_t target, const std::vector<uint64_t> *choices, uint64_t seed,
             uint64_t idx, const std::string &base, int timeoutMs) -> Attempt {
  static int serial = 0;
  std::string dir = base + "/a" + std::to_string(serial++);
  std::string out = dir + ".found";
  std::string rec = dir + ".rec";
  std::string err = dir + ".err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    makeScratch(dir);
    quiet(err);
    Case::mirrorFile = dir + ".desc";
    if (cfg.init) {
      cfg.init();
    }
    Source src = choices != nullptr ? Source(*choices)
                                    : Source(caseSeed(seed, cfg.property, target, idx));
    Case c;
    Found f;
    f.target = target;
    f.idx = idx;
    Outcome o = runOne(cfg.targets[target], src, c, f);
    if (o == Outcome::Fail) {
      writeFound(out, f, c.description);
      _exit(3);
    }
    if (o == Outcome::Pass) {
      // kept so that --describe can show a passing case
      Found g;
      g.target = target;
      g.idx = idx;
      g.choices = src.choices();
      g.sig = "-";
      writeFound(rec, g, c.description);
    }
    _exit(0);
  }
  int status = 0;
  int64_t t0 = nowMs();
  bool hung = false;
  while (true) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) {
      break;
    }
    if (nowMs() - t0 > timeoutMs) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      hung = true;
      break;
    }
    usleep(nowMs() - t0 < 20 ? 300 : 3000);
  }
  Attempt a;
  a.f.target = target;
  a.f.idx = idx;
  if (hung) {
    a.failed = true;
    a.f.sig = "hang";
    a.f.msg = "no answer within " + std::to_string(timeoutMs) + " ms (a case takes milliseconds)";
    if (choices != nullptr) {
      a.f.choices = *choices;
    }
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    readFound(rec, a.f, a.desc);
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 3 && readFound(out, a.f, a.desc)) {
    a.failed = true;
  } else {
    a.failed = true;
    a.f.sig = "crash";
    a.f.msg = crashMessage(status, readFile(err));
    if (choices != nullptr) {
      a.f.choices = *choices;
    }
  }
  if (a.failed && a.desc.empty()) {
    a.desc = readFile(dir + ".desc");
  }
  unlink((dir + ".desc").c_str());
  unlink(out.c_str());
  unlink(rec.c_str());
  unlink(err.c_str());
  rmTree(dir);
  return a;
}

auto newMirror() -> uint64_t * {
  return static_cast<uint64_t *>(mmap(nullptr, (Source::mirrorCap + 1) * 8, PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}
auto fromMirror(const uint64_t *m) -> std::vector<uint64_t> {
  return std::vector<uint64_t>(m + 1, m + 1 + m[0]);
}

auto shortlex(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) -> bool {
  if (a.size() != b.size()) {
    return a.size() < b.size();
  }
  return a < b;
}

auto shrink(const Config &cfg, Found best, std::string &desc, const std::string &base,
            int64_t budgetMs) -> Found {
  const int64_t t0 = nowMs();
  int attempts = 0;
  const int timeoutMs = best.sig == "hang" ? 4000 : cfg.targets[best.target].timeoutMs;
  auto tryIt = [&](std::vector<uint64_t> cand) -> bool {
    if (nowMs() - t0 > budgetMs || attempts > 4000) {
      return false;
    }
    while (!cand.empty() && cand.back() == 0) {
      cand.pop_back();
    }
    if (!shortlex(cand, best.choices)) {
      return false;
    }
    attempts++;
    Attempt a = attempt(cfg, best.target, &cand, 0, best.idx, base, timeoutMs);
    if (a.failed && a.f.sig == best.sig) {
      uint64_t idx = best.idx;
      best = a.f;
      best.idx = idx;
      if (shortlex(cand, best.choices)) {
        best.choices = cand;
      }
      desc = a.desc;
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && nowMs() - t0 < budgetMs) {
    improved = false;
    // delete blocks
    for (size_t k = std::max<size_t>(best.choices.size() / 2, 1); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.choices.size();) {
        std::vector<uint64_t> c = best.choices;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + k));
        if (tryIt(c)) {
          improved = true;
        } else {
          i += std::max<size_t>(k / 2, 1);
        }
      }
      if (k == 1) {
        break;
      }
    }
    // zero blocks
    for (size_t k : {8, 4, 2, 1}) {
      for (size_t i = 0; i + k <= best.choices.size(); i++) {
        std::vector<uint64_t> c = best.choices;
        bool any = false;
        for (size_t j = i; j < i + k; j++) {
          any = any || c[j] != 0;
          c[j] = 0;
        }
        if (any && tryIt(c)) {
          improved = true;
        }
      }
    }
    // reduce values
    for (size_t i = 0; i < best.choices.size(); i++) {
      uint64_t lo = 0;
      uint64_t hi = best.choices[i];
      while (lo < hi && i < best.choices.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c = best.choices;
        c[i] = mid;
        if (tryIt(c)) {
          improved = true;
          hi = mid;
        } else {
          lo = mid + 1;
        }
      }
      // decrement this one and delete the following one (list lengths)
      if (i + 1 < best.choices.size() && best.choices[i] > 0) {
        for (size_t k : {1, 2, 3, 4, 6, 8}) {
          if (i + 1 + k > best.choices.size()) {
            break;
          }
          std::vector<uint64_t> c = best.choices;
          c[i]--;
          c.erase(c.begin() + static_cast<long>(i + 1), c.begin() + static_cast<long>(i + 1 + k));
          if (tryIt(c)) {
            improved = true;
            break;
          }
        }
      }
    }
  }
  return best;
}

void worker(const Config &cfg, uint64_t seed, bool thorough, int w, int nw, WorkerShm *shm,
            size_t startTarget, uint64_t startIdx, const std::string &base, int64_t deadline,
            double scale, uint64_t *mirror) {
  Source::mirror = mirror;
  std::string dir = base + "/w" + std::to_string(w);
  makeScratch(dir);
  quiet(base + "/w" + std::to_string(w) + ".err");
  if (cfg.init) {
    cfg.init();
  }
  Stats st;
  for (size_t t = startTarget; t < cfg.targets.size(); t++) {
    const Target &target = cfg.targets[t];
    auto total = static_cast<uint64_t>(
        static_cast<double>(thorough ? target.thoroughCases : target.quickCases) * scale);
    uint64_t first = t == startTarget ? startIdx : static_cast<uint64_t>(w);
    size_t samplesHere = 0;
    // an even share of the time left, so that slow targets do not crowd out the later ones
    const int64_t left = std::max<int64_t>(0, deadline - nowMs());
    const int64_t until = nowMs() + left / static_cast<int64_t>(cfg.targets.size() - t);
    for (uint64_t idx = first; idx < total; idx += static_cast<uint64_t>(nw)) {
      if (nowMs() > until) {
        break;
      }
      shm->target = t;
      shm->idx = idx;
      shm->startMs = nowMs();
      Source::mirror[0] = 0;
      Source src(caseSeed(seed, cfg.property, t, idx));
      Case c;
      c.keepDescription = samplesHere < 1 && w < 4;
      Found f;
      f.target = t;
      f.idx = idx;
      Outcome o = runOne(target, src, c, f);
      shm->startMs = 0;
      if (o == Outcome::Discarded) {
        st.discarded++;
        continue;
      }
      st.evaluations++;
      if (c.isNontrivial) {
        st.nontrivial++;
        uint64_t h = c.fp;
        if (!c.hasFp) {
          h = 1469598103934665603ULL + t;
          for (auto v : src.choices()) {
            h = mix64(h ^ v);
          }
        }
        st.distinct.insert(mix64(h + t));
      }
      for (const auto &l : c.labels) {
        st.labels[target.name + ": " + l]++;
      }
      st.labels[target.name + ": cases"]++;
      if (o == Outcome::Pass && c.isNontrivial && samplesHere < 1 && w < 4 && !c.description.empty()) {
        std::string d = c.description;
        if (d.size() > 1500) {
          d = d.substr(0, 1500) + "...";
        }
        st.samples.push_back("[" + target.name + " #" + std::to_string(idx) + "] " + d);
        samplesHere++;
      }
      if (o == Outcome::Fail) {
        writeFound(base + "/w" + std::to_string(w) + ".found", f, c.description);
        _exit(3);
      }
    }
  }
  std::ofstream o(base + "/w" + std::to_string(w) + ".stats", std::ios::binary);
  o << st.evaluations << " " << st.discarded << " " << st.nontrivial << "\n";
  o << st.distinct.size() << "\n";
  for (auto h : st.distinct) {
    o << h << " ";
  }
  o << "\n" << st.labels.size() << "\n";
  for (auto &kv : st.labels) {
    o << kv.second << " " << kv.first << "\n";
  }
  o << st.samples.size() << "\n";
  for (auto &s : st.samples) {
    o << s.size() << "\n" << s << "\n";
  }
  o.close();
  shm->done = 1;
  _exit(0);
}

auto loadReplay(const std::string &path, const Config &cfg, Found &f) -> bool {
  std::ifstream i(path);
  std::string line;
  std::string tname;
  bool have = false;
  while (std::getline(i, line)) {
    if (line.rfind("target: ", 0) == 0) {
      tname = line.substr(8);
    } else if (line.rfind("choices:", 0) == 0) {
      std::istringstream s(line.substr(8));
      uint64_t v = 0;
      while (s >> v) {
        f.choices.push_back(v);
      }
      have = true;
      break;
    }
  }
  for (size_t t = 0; t < cfg.targets.size(); t++) {
    if (cfg.targets[t].name == tname) {
      f.target = t;
      return have;
    }
  }
  return false;
}

} // namespace

auto run(const Config &cfg, int argc, char **argv) -> int {
  std::string tier = "quick";
  std::string evidence;
  std::string outDir = ".";
  std::string replay;
  uint64_t seed = 1;
  int nw = 8;
  int64_t capMs = 0;
  double scale = 1;
  int describeN = 0;
  std::string only;
  long long shrinkMs = 60000;
  std::vector<std::string> known; // files "<id>\t<replay path>\t<text>"
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") {
      tier = next();
    } else if (a == "--seed") {
      seed = std::strtoull(next().c_str(), nullptr, 10);
    } else if (a == "--evidence") {
      evidence = next();
    } else if (a == "--out") {
      outDir = next();
    } else if (a == "--replay") {
      replay = next();
    } else if (a == "--workers") {
      nw = std::atoi(next().c_str());
    } else if (a == "--cap-ms") {
      capMs = std::atoll(next().c_str());
    } else if (a == "--shrink-ms") {
      shrinkMs = std::atoll(next().c_str());
    } else if (a == "--scale") {
      scale = std::atof(next().c_str());
    } else if (a == "--describe") {
      describeN = std::atoi(next().c_str());
    } else if (a == "--only") {
      only = next();
    } else if (a == "--known") {
      known.push_back(next());
    }
  }
  const bool thorough = tier == "thorough";
  if (capMs == 0) {
    capMs = thorough ? 600000 : 150000;
  }
  Config c2 = cfg;
  if (!only.empty()) {
    for (auto &t : c2.targets) {
      if (t.name != only) {
        t.quickCases = t.thoroughCases = 0;
      }
    }
  }
  const Config &C = c2;
  const char *tmpBase = getenv("TMPDIR");
  std::string tmpl = std::string(tmpBase != nullptr ? tmpBase : "/tmp") + "/pbt.XXXXXX";
  std::vector<char> tb(tmpl.begin(), tmpl.end());
  tb.push_back(0);
  if (mkdtemp(tb.data()) == nullptr) {
    fprintf(stderr, "cannot create scratch folder\n");
    return 2;
  }
  std::string base = tb.data();
  struct Cleanup {
    std::string b;
    ~Cleanup() { rmTree(b); }
  } cleanup{base};
  g_scratch = base;
  int64_t t0 = nowMs();

  if (!replay.empty()) {
    Found f;
    if (!loadReplay(replay, C, f)) {
      fprintf(stderr, "cannot read replay file %s\n", replay.c_str());
      return 2;
    }
    Attempt a = attempt(C, f.target, &f.choices, 0, 0, base, C.targets[f.target].timeoutMs);
    printf("%s\n%s\n%s\n", a.failed ? "FAILS" : "PASSES", a.f.msg.c_str(), a.desc.c_str());
    return a.failed ? 1 : 0;
  }
  if (describeN > 0) {
    for (size_t t = 0; t < C.targets.size(); t++) {
      if (!only.empty() && C.targets[t].name != only) {
        continue;
      }
      for (int k = 0; k < describeN; k++) {
        Attempt a = attempt(C, t, nullptr, seed, static_cast<uint64_t>(k), base,
                            C.targets[t].timeoutMs);
        printf("--- %s #%d %s %s\n%s\n", C.targets[t].name.c_str(), k,
               a.failed ? "FAILS" : "passes", a.f.msg.c_str(), a.desc.c_str());
      }
    }
    return 0;
  }

  // known findings: replay each listed input, report it, never a violation
  std::vector<std::string> knownReported;
  for (const auto &k : known) {
    std::istringstream s(k);
    std::string path;
    std::string text;
    std::getline(s, path, '\t');
    std::getline(s, text);
    Found f;
    if (!loadReplay(path, C, f)) {
      fprintf(stderr, "cannot read known finding %s\n", path.c_str());
      return 2;
    }
    Attempt a = attempt(C, f.target, &f.choices, 0, 0, base, C.targets[f.target].timeoutMs);
    if (a.failed) {
      printf("KNOWN-FINDING: property=%s %s\n", C.property.c_str(), text.c_str());
      knownReported.push_back(text);
    } else {
      printf("note: listed finding no longer fails: %s\n", text.c_str());
    }
  }
  fflush(stdout);

  auto *shm = static_cast<WorkerShm *>(mmap(nullptr, sizeof(WorkerShm) * static_cast<size_t>(nw),
                                            PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1,
                                            0));
  std::vector<pid_t> pids(static_cast<size_t>(nw), 0);
  std::vector<uint64_t *> mirrors;
  for (int w = 0; w < nw; w++) {
    mirrors.push_back(newMirror());
  }
  int64_t deadline = t0 + capMs;
  auto spawn = [&](int w, size_t t, uint64_t idx) {
    new (&shm[w]) WorkerShm();
    shm[w].startMs = 0;
    shm[w].done = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      worker(C, seed, thorough, w, nw, &shm[w], t, idx, base, deadline, scale,
             mirrors[static_cast<size_t>(w)]);
      _exit(0);
    }
    pids[static_cast<size_t>(w)] = p;
  };
  for (int w = 0; w < nw; w++) {
    spawn(w, 0, static_cast<uint64_t>(w));
  }
  bool have = false;
  int inconclusive = 0;
  Found found;
  std::string foundDesc;
  size_t alive = static_cast<size_t>(nw);
  std::vector<std::string> notes;
  auto killAll = [&] {
    for (auto &p : pids) {
      if (p > 0) {
        kill(p, SIGKILL);
        int s = 0;
        waitpid(p, &s, 0);
        p = 0;
      }
    }
    alive = 0;
  };
  std::string violationReplay;
  auto confirm = [&](Found f, std::string desc) -> bool {
    const int tmo = C.targets[f.target].timeoutMs;
    Found small = f;
    std::string d = desc;
    // confirm the original first
    int ok = 0;
    for (int k = 0; k < 3; k++) {
      Attempt a = attempt(C, f.target, &f.choices, 0, f.idx, base, tmo);
      if (a.failed) {
        ok++;
        small.sig = a.f.sig;
        small.msg = a.f.msg;
        d = a.desc;
      }
    }
    if (ok < 3) {
      notes.push_back("failure that did not replay 3x (" + f.sig + "): " + f.msg);
      return false;
    }
    Found s2 = shrink(C, small, d, base, std::min<long long>(shrinkMs, small.sig == "hang" ? 40000 : 60000));
    ok = 0;
    for (int k = 0; k < 3; k++) {
      Attempt a = attempt(C, s2.target, &s2.choices, 0, s2.idx, base, tmo);
      ok += a.failed ? 1 : 0;
    }
    if (ok == 3) {
      small = s2;
    }
    found = small;
    foundDesc = d;
    mkdir(outDir.c_str(), 0755);
    violationReplay = outDir + "/" + C.property + "-" + C.targets[small.target].name + "-seed" +
                      std::to_string(seed) + ".replay";
    std::ofstream o(violationReplay, std::ios::binary);
    o << "property: " << C.property << "\n"
      << "target: " << C.targets[small.target].name << "\n"
      << "seed: " << seed << " case: " << small.idx << "\n"
      << "choices:";
    for (auto v : small.choices) {
      o << " " << v;
    }
    o << "\nsignature: " << small.sig << "\nmessage: " << small.msg << "\n\n" << d << "\n";
    return true;
  };
  while (alive > 0 && !have) {
    usleep(3000);
    for (int w = 0; w < nw && !have; w++) {
      auto &p = pids[static_cast<size_t>(w)];
      if (p == 0) {
        continue;
      }
      int status = 0;
      pid_t r = waitpid(p, &status, WNOHANG);
      if (r == 0) {
        int64_t s = shm[w].startMs;
        size_t t = shm[w].target;
        if (s != 0 && nowMs() - s > C.targets[t].timeoutMs) {
          kill(p, SIGKILL);
          waitpid(p, &status, 0);
          p = 0;
          alive--;
          Found f;
          f.target = t;
          f.idx = shm[w].idx;
          f.sig = "hang";
          f.choices = fromMirror(mirrors[static_cast<size_t>(w)]);
          if (confirm(f, "")) {
            have = true;
          } else if (++inconclusive < 20) {
            spawn(w, t, f.idx + static_cast<uint64_t>(nw));
            alive++;
          }
        }
        continue;
      }
      p = 0;
      alive--;
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        continue;
      }
      Found f;
      std::string desc;
      std::string ff = base + "/w" + std::to_string(w) + ".found";
      if (WIFEXITED(status) && WEXITSTATUS(status) == 3 && readFound(ff, f, desc)) {
        unlink(ff.c_str());
      } else {
        f.target = shm[w].target;
        f.idx = shm[w].idx;
        f.sig = "crash";
        f.choices = fromMirror(mirrors[static_cast<size_t>(w)]);
        f.msg = crashMessage(status, readFile(base + "/w" + std::to_string(w) + ".err"));
      }
      if (confirm(f, desc)) {
        have = true;
      } else if (++inconclusive < 20) {
        spawn(w, f.target, f.idx + static_cast<uint64_t>(nw));
        alive++;
      }
    }
  }
  killAll();

  Stats total;
  for (int w = 0; w < nw; w++) {
    std::ifstream i(base + "/w" + std::to_string(w) + ".stats", std::ios::binary);
    uint64_t e = 0;
    uint64_t d = 0;
    uint64_t n = 0;
    if (!(i >> e >> d >> n)) {
      continue;
    }
    total.evaluations += e;
    total.discarded += d;
    total.nontrivial += n;
    size_t k = 0;
    i >> k;
    for (size_t j = 0; j < k; j++) {
      uint64_t h = 0;
      i >> h;
      total.distinct.insert(h);
    }
    i >> k;
    for (size_t j = 0; j < k; j++) {
      uint64_t c = 0;
      std::string l;
      i >> c;
      i.ignore(1);
      std::getline(i, l);
      total.labels[l] += c;
    }
    i >> k;
    for (size_t j = 0; j < k; j++) {
      size_t len = 0;
      i >> len;
      i.ignore(1);
      std::string s(len, ' ');
      i.read(s.data(), static_cast<std::streamsize>(len));
      total.samples.push_back(s);
    }
  }
  std::sort(total.samples.begin(), total.samples.end());
  if (have) {
    total.evaluations = std::max<uint64_t>(total.evaluations, found.idx + 1);
    total.samples.insert(total.samples.begin(),
                         "[violation in " + C.targets[found.target].name + "] " + found.msg);
  }
  double wall = static_cast<double>(nowMs() - t0) / 1000.0;
  if (!evidence.empty()) {
    std::ofstream o(evidence, std::ios::binary);
    o << "{\n \"property\": \"" << C.property << "\",\n \"tier\": \"" << tier
      << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << total.evaluations << ",\n  \"distinct_nontrivial\": "
      << total.distinct.size() << ",\n  \"discarded\": " << total.discarded
      << ",\n  \"rule\": \"" << jsonEscape(C.rule) << "\",\n  \"distribution\": {";
    bool first = true;
    for (auto &kv : total.labels) {
      o << (first ? "" : ",") << "\n   \"" << jsonEscape(kv.first) << "\": " << kv.second;
      first = false;
    }
    o << "},\n  \"samples\": [";
    first = true;
    size_t shown = 0;
    for (auto &s : total.samples) {
      if (shown++ >= 12) {
        break;
      }
      o << (first ? "" : ",") << "\n   \"" << jsonEscape(s) << "\"";
      first = false;
    }
    o << "]\n },\n \"assumptions\": [";
    first = true;
    for (auto &s : C.assumptions) {
      o << (first ? "" : ",") << "\n  \"" << jsonEscape(s) << "\"";
      first = false;
    }
    o << "],\n \"known_findings\": [";
    first = true;
    for (auto &s : knownReported) {
      o << (first ? "" : ",") << "\n  \"" << jsonEscape(s) << "\"";
      first = false;
    }
    o << "],\n \"notes\": [";
    first = true;
    for (auto &s : notes) {
      o << (first ? "" : ",") << "\n  \"" << jsonEscape(s) << "\"";
      first = false;
    }
    o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (have ? 1 : 0) << "\n}\n";
  }
  for (auto &n : notes) {
    printf("note: %s\n", n.c_str());
  }
  printf("%s: %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s\n", C.property.c_str(),
         static_cast<unsigned long long>(total.evaluations), total.distinct.size(),
         static_cast<unsigned long long>(total.discarded), wall);
  if (have) {
    printf("%s\n", found.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", C.property.c_str(), violationReplay.c_str());
    return 1;
  }
  return 0;
}

} // namespace pbt
