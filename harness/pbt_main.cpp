// Driver: parallel generation, crash/hang containment, shrinking, replay,
// evidence counters.  One binary per property.
#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
std::vector<Sub> &registry() {
  static std::vector<Sub> r;
  return r;
}
}  // namespace pbt
using namespace pbt;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t hash_choices(const char *name, const std::vector<uint64_t> &v) {
  uint64_t h = 1469598103934665603ull;
  for (const char *p = name; *p; p++) h = mix(h, (unsigned char)*p);
  for (uint64_t x : v) h = mix(h, x);
  return h;
}

enum Verdict { PASS = 0, FAIL = 1, DISCARDED = 2, CRASH = 3, HANG = 4 };

struct Outcome {
  Verdict v = PASS;
  std::string msg, desc;
  std::vector<uint64_t> rec;
};

static void run_case(const Sub &s, Case &c, Outcome &o) {
  try {
    s.fn(c);
    o.v = PASS;
  } catch (const Discard &) {
    o.v = DISCARDED;
  } catch (const Failure &f) {
    o.v = FAIL;
    o.msg = f.msg;
  } catch (const std::exception &e) {
    o.v = FAIL;
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.v = FAIL;
    o.msg = "unexpected exception of unknown type";
  }
}

static double g_case_timeout = 20.0;

// A case identified by the seed of its source; used for histories of cases,
// when a failure needs the state left behind by earlier cases of the process.
struct Seeded {
  size_t sub;
  uint64_t seed;
};

// run one case in a forked child and collect its outcome through a file; the
// optional prefix of earlier cases runs first in the same process.
static Outcome run_forked(const Sub &s, const std::vector<uint64_t> &choices,
                          const std::vector<Seeded> *history = nullptr) {
  Outcome o;
  char tmpl[] = "/tmp/pbt_out_XXXXXX";
  int fd = mkstemp(tmpl);
  if (fd < 0) { perror("mkstemp"); exit(3); }
  unlink(tmpl);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    struct rlimit rl {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (history)
      for (size_t i = 0; i + 1 < history->size(); i++) {
        Case hc{Source((*history)[i].seed)};
        Outcome hr;
        run_case(registry()[(*history)[i].sub], hc, hr);
      }
    Case c{history ? Source(history->back().seed) : Source(choices)};
    Outcome r;
    // crash output of the library goes to the pipe as well
    int efd = dup(fd);
    dup2(efd, 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    run_case(s, c, r);
    std::ostringstream out;
    out << "\nRESULT " << (int)r.v << "\n" << c.src.rec.size();
    for (uint64_t x : c.src.rec) out << " " << x;
    out << "\nMSG " << r.msg << "\nDESC " << c.desc.str() << "\n";
    std::string t = out.str();
    size_t off = 0;
    while (off < t.size()) {
      ssize_t n = write(fd, t.data() + off, t.size() - off);
      if (n <= 0) break;
      off += (size_t)n;
    }
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  bool hang = false;
  for (;;) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    if (now() - t0 > g_case_timeout * (history ? 8.0 : 1.0)) {
      hang = true;
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      break;
    }
    usleep(now() - t0 < 0.02 ? 200 : 2000);
  }
  std::string text;
  lseek(fd, 0, SEEK_SET);
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) text.append(buf, (size_t)n);
  close(fd);
  size_t k = text.rfind("\nRESULT ");
  if (hang) {
    o.v = HANG;
    o.msg = "case did not finish within the hang limit";
    o.rec = choices;
    return o;
  }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || k == std::string::npos) {
    o.v = CRASH;
    o.rec = choices;
    std::ostringstream m;
    m << "process died ("
      << (WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "non-zero exit")
      << "): " << text.substr(0, 1500);
    o.msg = m.str();
    return o;
  }
  std::istringstream in(text.substr(k + 8));
  int v;
  size_t cnt;
  in >> v >> cnt;
  o.v = (Verdict)v;
  o.rec.resize(cnt);
  for (auto &x : o.rec) in >> x;
  std::string rest((std::istreambuf_iterator<char>(in)), {});
  size_t a = rest.find("MSG "), b = rest.find("\nDESC ");
  if (a != std::string::npos && b != std::string::npos) {
    o.msg = rest.substr(a + 4, b - a - 4);
    o.desc = rest.substr(b + 6);
  }
  return o;
}
static bool bad(Verdict v) { return v == FAIL || v == CRASH || v == HANG; }

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

static Outcome shrink(const Sub &s, Outcome best, double budget) {
  double t_end = now() + budget;
  auto try_it = [&](const std::vector<uint64_t> &cand) {
    if (now() > t_end) return false;
    Outcome o = run_forked(s, cand);
    if (!bad(o.v)) return false;
    if (o.v != best.v) return false;
    if (o.rec.empty() || o.v != FAIL) o.rec = cand;
    if (!simpler(o.rec, best.rec)) return false;
    best = o;
    return true;
  };
  bool progress = true;
  while (progress && now() < t_end) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.rec.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.rec.size() && now() < t_end;) {
        auto cand = best.rec;
        cand.erase(cand.begin() + (long)i, cand.begin() + (long)(i + len));
        if (try_it(cand)) { progress = true; }
        else i += len;
      }
      if (len == 1) break;
    }
    for (size_t len : {8, 4, 2}) {
      for (size_t i = 0; i + len <= best.rec.size() && now() < t_end; i += len) {
        auto cand = best.rec;
        bool any = false;
        for (size_t j = i; j < i + len; j++) { any |= cand[j] != 0; cand[j] = 0; }
        if (any && try_it(cand)) progress = true;
      }
    }
    for (size_t i = 0; i < best.rec.size() && now() < t_end; i++) {
      if (best.rec[i] == 0) continue;
      auto cand = best.rec;
      cand[i] = 0;
      if (try_it(cand)) { progress = true; continue; }
      uint64_t lo = 0, hi = i < best.rec.size() ? best.rec[i] : 0;
      for (int it = 0; it < 12 && hi - lo > 1 && i < best.rec.size(); it++) {
        uint64_t mid = lo + (hi - lo) / 2;
        cand = best.rec;
        cand[i] = mid;
        if (try_it(cand)) { hi = i < best.rec.size() ? best.rec[i] : 0; progress = true; }
        else lo = mid;
      }
    }
  }
  return best;
}

// ---------------------------------------------------------------- workers
struct Slot {  // shared memory, one per worker
  volatile uint64_t sub, idx;
  volatile double started;
  volatile int busy;
  volatile uint64_t done;
  volatile int failed;  // a Failure was raised: sub/idx identify it
  volatile uint64_t first;  // first global index of this incarnation
};

struct Args {
  std::string replay, out, vout, only;
  uint64_t seed = 1, cases = 20000;
  double cap = 200, shrink = 45;
  int workers = 7;
  bool list = false;
};

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
    else r += (char)ch;
  }
  return r + "\"";
}

// enumerates the global order of the cases; f returns false to stop
template <class F>
static void enumerate_plan(const std::vector<std::pair<size_t, uint64_t>> &plan, F f) {
  uint64_t rounds = 0;
  for (auto &p : plan) rounds = std::max(rounds, p.second);
  std::vector<double> acc(plan.size(), 0);
  std::vector<uint64_t> idx(plan.size(), 0);
  uint64_t g = 0;
  // the sub-checks are interleaved so that a time cap hits all of them evenly
  for (uint64_t r = 0; r < rounds; r++)
    for (size_t k = 0; k < plan.size(); k++) {
      acc[k] += (double)plan[k].second / (double)rounds;
      while (acc[k] >= 1.0 - 1e-9) {
        acc[k] -= 1.0;
        uint64_t i = idx[k]++;
        if (!f(g++, plan[k].first, i)) return;
      }
    }
}
static uint64_t case_seed(uint64_t seed, size_t sub, uint64_t idx) {
  return mix(mix(seed, 77 + sub), idx);
}

static void worker(const Args &a, int w, int nw, Slot *slot,
                   const std::vector<std::pair<size_t, uint64_t>> &plan_total,
                   const std::string &file, uint64_t first_global, double t_end) {
  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  dup2(nul, 2);
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> seen;
  uint64_t evals = 0, disc = 0;
  std::vector<std::string> samples;
  auto dump = [&]() {
    std::ofstream f(file);
    f << evals << " " << disc << "\n" << seen.size() << "\n";
    for (uint64_t h : seen) f << h << "\n";
    f << labels.size() << "\n";
    for (auto &l : labels) f << l.second << " " << l.first << "\n";
    f << samples.size() << "\n";
    for (auto s : samples) {
      std::replace(s.begin(), s.end(), '\n', ' ');
      f << s << "\n";
    }
  };
  bool stop = false;
  enumerate_plan(plan_total, [&](uint64_t my, size_t sub, uint64_t i) {
    if ((int)(my % (uint64_t)nw) != w || my < first_global) return true;
    const Sub &s = registry()[sub];
    slot->sub = sub;
    slot->idx = i;
    slot->started = now();
    slot->done = my;
    slot->busy = 1;
    Case c{Source(case_seed(a.seed, sub, i))};
    Outcome o;
    run_case(s, c, o);
    slot->busy = 0;
    if (o.v == DISCARDED) {
      disc++;
    } else {
      evals++;
      if (o.v == FAIL) {
        slot->failed = 1;
        dump();
        _exit(7);
      }
      labels[std::string("sub:") + s.name]++;
      for (auto &l : c.labels) labels[std::string(s.name) + "/" + l.first]++;
      if (c.nontrivial) {
        if (seen.size() < 2000000) seen.insert(hash_choices(s.name, c.src.rec));
        if (samples.size() < 6 && (i % 37) == 5)
          samples.push_back(std::string(s.name) + ": " + c.desc.str().substr(0, 400));
      }
    }
    if (now() > t_end) { stop = true; return false; }
    return true;
  });
  dump();
  _exit(stop ? 8 : 0);
}

int main(int argc, char **argv) {
  Args a;
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (k == "--replay") a.replay = nxt();
    else if (k == "--out") a.out = nxt();
    else if (k == "--violation-out") a.vout = nxt();
    else if (k == "--only") a.only = nxt();
    else if (k == "--seed") a.seed = strtoull(nxt().c_str(), 0, 10);
    else if (k == "--cases") a.cases = strtoull(nxt().c_str(), 0, 10);
    else if (k == "--cap") a.cap = atof(nxt().c_str());
    else if (k == "--shrink") a.shrink = atof(nxt().c_str());
    else if (k == "--case-timeout") g_case_timeout = atof(nxt().c_str());
    else if (k == "--workers") a.workers = atoi(nxt().c_str());
    else if (k == "--list") a.list = true;
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 3; }
  }
  if (a.list) {
    for (auto &s : registry()) printf("%s %g\n", s.name, s.weight);
    return 0;
  }
  if (!a.replay.empty()) {
    std::ifstream f(a.replay);
    std::string line, sub;
    std::vector<uint64_t> ch;
    std::vector<Seeded> hist;
    while (std::getline(f, line)) {
      if (line.rfind("history ", 0) == 0) {
        std::istringstream in(line.substr(8));
        std::string nm;
        uint64_t sd;
        in >> nm >> sd;
        for (size_t i = 0; i < registry().size(); i++)
          if (nm == registry()[i].name) hist.push_back({i, sd});
      }
      if (line.rfind("sub ", 0) == 0) sub = line.substr(4);
      if (line.rfind("choices", 0) == 0) {
        std::istringstream in(line.substr(7));
        uint64_t x;
        while (in >> x) ch.push_back(x);
      }
    }
    for (auto &s : registry())
      if (sub == s.name) {
        Outcome o = run_forked(s, ch, hist.empty() ? nullptr : &hist);
        printf("replay %s: verdict=%d\n%s\ninput: %s\n", sub.c_str(), (int)o.v,
               o.msg.c_str(), o.desc.c_str());
        return bad(o.v) ? 1 : 0;
      }
    fprintf(stderr, "no sub-check named '%s'\n", sub.c_str());
    return 3;
  }

  double wsum = 0;
  std::vector<std::pair<size_t, uint64_t>> plan;
  // sub-checks named threads_* or memory_* drive the other sub-checks linked into the same
  // binary, which then do not run on their own
  auto drives = [](size_t i) { return strncmp(registry()[i].name, "threads_", 8) == 0 || strncmp(registry()[i].name, "memory_", 7) == 0; };
  bool driven = false;
  for (size_t i = 0; i < registry().size(); i++) driven = driven || drives(i);
  auto wanted = [&](size_t i) { return a.only.empty() ? drives(i) == driven : a.only == registry()[i].name; };
  for (size_t i = 0; i < registry().size(); i++)
    if (wanted(i)) wsum += registry()[i].weight;
  for (size_t i = 0; i < registry().size(); i++)
    if (wanted(i))
      plan.push_back({i, std::max<uint64_t>(1, (uint64_t)((double)a.cases * registry()[i].weight / wsum))});

  int nw = a.workers;
  Slot *slots = (Slot *)mmap(0, sizeof(Slot) * (size_t)nw, PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)slots, 0, sizeof(Slot) * (size_t)nw);
  char dtmpl[] = "/tmp/pbt_run_XXXXXX";
  if (!mkdtemp(dtmpl)) { perror("mkdtemp"); return 3; }
  std::string dir = dtmpl;
  double t0 = now(), t_end = t0 + a.cap;
  std::vector<pid_t> pids((size_t)nw, -1);
  std::vector<int> gen((size_t)nw, 0);
  auto spawn = [&](int w, uint64_t first) {
    std::string file = dir + "/w" + std::to_string(w) + "_" + std::to_string(gen[(size_t)w]++);
    slots[w].failed = 0;
    slots[w].busy = 0;
    slots[w].first = first;
    pid_t p = fork();
    if (p == 0) worker(a, w, nw, &slots[w], plan, file, first, t_end);
    pids[(size_t)w] = p;
  };
  for (int w = 0; w < nw; w++) spawn(w, 0);

  bool violated = false, capped = false;
  uint64_t flaky = 0;
  Outcome worst;
  std::string worst_sub;
  std::vector<Seeded> worst_hist;
  int alive = nw;
  auto stop_all = [&]() {
    for (auto &p : pids)
      if (p > 0) { kill(p, SIGKILL); waitpid(p, 0, 0); p = -1; }
    alive = 0;
  };
  auto investigate = [&](size_t sub, uint64_t idx) -> bool {
    const Sub &s = registry()[sub];
    // regenerate the choices of the failing case (generation is deterministic)
        // record choices by running once in a forked child that streams them
    // through shared memory, so that even a crash keeps them.
    size_t cap = 1 << 16;
    uint64_t *shm = (uint64_t *)mmap(0, (cap + 1) * 8, PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // raw choices: draw an over-long stream with the modulus unknown is not
    // possible, so re-run the case itself and copy the record as it grows.
    pid_t p = fork();
    if (p == 0) {
      struct rlimit rl {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      dup2(nul, 2);
      Case c{Source(case_seed(a.seed, sub, idx))};
      c.src.tap = shm;
      c.src.tap_cap = cap;
      alarm((unsigned)g_case_timeout + 1);
      Outcome o;
      run_case(s, c, o);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    std::vector<uint64_t> ch(shm + 1, shm + 1 + std::min<uint64_t>(shm[0], cap));
    munmap(shm, (cap + 1) * 8);
    Outcome o = run_forked(s, ch);
    if (!bad(o.v)) return false;
    if (o.rec.empty()) o.rec = ch;
    Outcome orig = o;
    auto confirmed = [&](const Outcome &x) {
      for (int i = 0; i < 3; i++)
        if (!bad(run_forked(s, x.rec).v)) return false;
      return true;
    };
    if (o.v == HANG) {
      if (!confirmed(o)) return false;
    } else {
      o = shrink(s, o, a.shrink);
      if (!confirmed(o)) {
        o = orig;
        if (!confirmed(o)) return false;
      }
    }
    worst = o;
    worst_sub = s.name;
    return true;
  };

  // the failure did not show up in a process of its own: look for it again
  // behind the cases that ran before it in the same worker
  double hist_budget = 240;
  auto investigate_history = [&](int w, uint64_t first, uint64_t done) -> bool {
    double h0 = now(), h_end = h0 + std::min(120.0, hist_budget);
    std::vector<Seeded> all;
    enumerate_plan(plan, [&](uint64_t g, size_t sub, uint64_t i) {
      if (g > done) return false;
      if ((int)(g % (uint64_t)nw) == w && g >= first) all.push_back({sub, case_seed(a.seed, sub, i)});
      return true;
    });
    bool found = false;
    auto fails = [&](const std::vector<Seeded> &h) {
      return bad(run_forked(registry()[h.back().sub], {}, &h).v);
    };
    std::vector<Seeded> best;
    for (size_t m = 2; !found && now() < h_end; m *= 4) {
      best.assign(all.end() - (long)std::min(m, all.size()), all.end());
      if (fails(best)) found = true;
      if (m >= all.size()) break;
    }
    if (found) {
      for (size_t len = std::max<size_t>(1, best.size() / 2); now() < h_end; len /= 2) {
        for (size_t i = 0; i + len < best.size() && now() < h_end;) {
          auto cand = best;
          cand.erase(cand.begin() + (long)i, cand.begin() + (long)(i + len));
          if (fails(cand)) best = cand;
          else i += len;
        }
        if (len <= 1) break;
      }
      for (int i = 0; i < 3 && found; i++) found = fails(best);
    }
    hist_budget -= now() - h0;
    if (!found) return false;
    worst = run_forked(registry()[best.back().sub], {}, &best);
    worst_sub = registry()[best.back().sub].name;
    worst_hist = best;
    return true;
  };

  while (alive > 0) {
    int st;
    pid_t q = waitpid(-1, &st, WNOHANG);
    if (q > 0) {
      int w = -1;
      for (int i = 0; i < nw; i++)
        if (pids[(size_t)i] == q) w = i;
      if (w < 0) continue;
      pids[(size_t)w] = -1;
      alive--;
      bool ok = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 8);
      if (ok) {
        if (WEXITSTATUS(st) == 8) capped = true;
        continue;
      }
      size_t sub = slots[w].sub;
      uint64_t idx = slots[w].idx, done = slots[w].done;
      if (investigate(sub, idx) || investigate_history(w, slots[w].first, done)) {
        violated = true;
        stop_all();
        break;
      }
      flaky++;
      if (flaky < 20 && now() < t_end) {
        spawn(w, done + 1);
        alive++;
      }
      continue;
    }
    for (int w = 0; w < nw; w++) {
      if (pids[(size_t)w] > 0 && slots[w].busy && now() - slots[w].started > g_case_timeout * 1.5) {
        size_t sub = slots[w].sub;
        uint64_t idx = slots[w].idx, done = slots[w].done;
        kill(pids[(size_t)w], SIGKILL);
        waitpid(pids[(size_t)w], 0, 0);
        pids[(size_t)w] = -1;
        alive--;
        if (investigate(sub, idx)) {
          violated = true;
          stop_all();
          break;
        }
        flaky++;
        if (flaky < 20 && now() < t_end) { spawn(w, done + 1); alive++; }
      }
    }
    usleep(5000);
  }

  // merge counters
  uint64_t evals = 0, disc = 0;
  std::unordered_set<uint64_t> seen;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  for (int w = 0; w < nw; w++)
    for (int gk = 0; gk < gen[(size_t)w]; gk++) {
      std::ifstream f(dir + "/w" + std::to_string(w) + "_" + std::to_string(gk));
      uint64_t e, d, n;
      if (!(f >> e >> d >> n)) continue;
      evals += e;
      disc += d;
      for (uint64_t i = 0; i < n; i++) { uint64_t h; f >> h; seen.insert(h); }
      f >> n;
      for (uint64_t i = 0; i < n; i++) {
        uint64_t cnt;
        std::string l;
        f >> cnt;
        f.get();
        std::getline(f, l);
        labels[l] += cnt;
      }
      f >> n;
      std::string l;
      std::getline(f, l);
      for (uint64_t i = 0; i < n; i++) { std::getline(f, l); samples.push_back(l); }
    }
  for (int w = 0; w < nw; w++)
    for (int gk = 0; gk < gen[(size_t)w]; gk++)
      unlink((dir + "/w" + std::to_string(w) + "_" + std::to_string(gk)).c_str());
  rmdir(dir.c_str());

  if (!a.out.empty()) {
    std::ofstream f(a.out);
    f << "{\"evaluations\":" << evals << ",\"discarded\":" << disc
      << ",\"distinct_nontrivial\":" << seen.size() << ",\"flaky\":" << flaky
      << ",\"capped\":" << (capped ? "true" : "false")
      << ",\"wall_s\":" << (now() - t0) << ",\"labels\":{";
    bool first = true;
    for (auto &l : labels) { f << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
    f << "},\"samples\":[";
    first = true;
    // spread: keep at most 3 samples per sub-check
    std::map<std::string, int> per;
    for (auto &s : samples) {
      std::string k = s.substr(0, s.find(':'));
      if (per[k]++ >= 3) continue;
      f << (first ? "" : ",") << jstr(s);
      first = false;
    }
    f << "],\"violation\":";
    if (violated)
      f << "{\"sub\":" << jstr(worst_sub) << ",\"message\":" << jstr(worst.msg.substr(0, 4000))
        << ",\"input\":" << jstr(worst.desc.substr(0, 4000)) << "}";
    else f << "null";
    f << "}\n";
  }
  if (violated) {
    if (!a.vout.empty()) {
      std::ofstream f(a.vout);
      f << "sub " << worst_sub;
      if (worst_hist.empty()) {
        f << "\nchoices";
        for (uint64_t x : worst.rec) f << " " << x;
      }
      for (auto &h : worst_hist) f << "\nhistory " << registry()[h.sub].name << " " << h.seed;
      f << "\n# " << worst.msg.substr(0, 3000) << "\n# input: " << worst.desc << "\n";
    }
    printf("FALSIFIED %s\n%s\ninput: %s\n", worst_sub.c_str(), worst.msg.c_str(), worst.desc.c_str());
    return 1;
  }
  printf("ok: %llu cases, %zu distinct non-trivial, %llu discarded, %llu flaky%s, %.1f s\n",
         (unsigned long long)evals, seen.size(), (unsigned long long)disc,
         (unsigned long long)flaky, capped ? " (time cap)" : "", now() - t0);
  return 0;
}
