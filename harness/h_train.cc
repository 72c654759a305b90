// C16, C17: training. Queues, executor threads, examples, updates and whole
// training runs.
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <fstream>
#include <mutex>
#include <thread>

#include "core/analysis/unk_nodes_creator.h"
#include "core/env.h"
#include "core/impl/feature_computer.h"
#include "core/training/training_env.h"
#include "core/training/training_executor.h"
#include "util/bounded_queue.h"
#include "vcore.h"

using namespace vc;
using vh::Ctx;
using vh::Msg;
using vh::Rng;
using std::string;
namespace tr = jumanpp::core::training;

namespace {

// ends the process if something takes too long
class Watch {
  std::mutex m;
  std::condition_variable cv;
  bool done = false;
  std::thread t;

 public:
  Watch(Ctx& c, const string& what, int seconds = 40) {
    auto idx = c.idx;
    t = std::thread([this, what, seconds, idx] {
      std::unique_lock<std::mutex> l(m);
      if (!cv.wait_for(l, std::chrono::seconds(seconds), [this] { return done; })) {
        printf("VIOL\thang:%s\t%lld\tno progress in %d seconds\n", what.c_str(), (long long)idx, seconds);
        fflush(stdout);
        _exit(97);
      }
    });
  }
  ~Watch() {
    {
      std::lock_guard<std::mutex> l(m);
      done = true;
    }
    cv.notify_all();
    t.join();
  }
};

void pauseALittle(Rng& r) {
  switch (r.below(8)) {
    case 0: std::this_thread::yield(); break;
    case 1: usleep((useconds_t)r.below(200)); break;
    case 2: {
      volatile int x = 0;
      for (int i = (int)r.below(2000); i > 0; --i) x = x + i;
      break;
    }
    default: break;
  }
}

// ------------------------------------------------------------ queue, one thread

template <typename T>
struct Cell;
template <>
struct Cell<std::unique_ptr<int>> {
  static std::unique_ptr<int> make(int v) { return std::unique_ptr<int>(new int(v)); }
  static int get(const std::unique_ptr<int>& p) { return p ? *p : -1; }
};
template <>
struct Cell<string> {
  static string make(int v) { return "element number " + std::to_string(v); }
  static int get(const string& s) { return s.size() > 15 ? atoi(s.c_str() + 15) : -1; }
};
template <>
struct Cell<int> {
  static int make(int v) { return v; }
  static int get(int v) { return v; }
};

template <typename T>
void lockStep(Ctx& c) {
  auto& r = c.rng;
  unsigned capa = (unsigned)r.range(1, r.chance(20) ? 40 : 6);
  std::unique_ptr<util::bounded_queue<T>> q;
  if (r.chance(50)) {
    q.reset(new util::bounded_queue<T>(capa));
  } else {
    q.reset(new util::bounded_queue<T>());
    T out{};
    if (q->size() != 0 || q->recieve(&out)) c.viol("queue:new-not-empty", "");
    if (q->offer(Cell<T>::make(0))) c.viol("queue:no-capacity", "");
    q->initialize(capa);
  }
  std::deque<int> ref;
  int next = 1;
  string log = Msg() << "capacity " << capa << ":";
  int n = (int)r.range(10, 200);
  int bias = (int)r.range(20, 80);
  for (int i = 0; i < n; ++i) {
    if ((int)r.below(100) < bias) {
      unsigned reserve = r.chance(20) ? (unsigned)r.below(capa + 2) : 0;
      T item = Cell<T>::make(next);
      bool want = capa - ref.size() > reserve;
      bool got = q->offer(std::move(item), reserve);
      log += Msg() << " o" << next << "/" << reserve << (got ? "+" : "-");
      if (want != got) c.viol("queue:offer", log);
      if (got) ref.push_back(next);
      else if (Cell<T>::get(item) != next) c.viol("queue:refused-item-lost", log);
      ++next;
      c.stat(got ? "offers" : "refused_offers");
    } else if (r.chance(60) || ref.empty()) {
      T item{};
      bool got = q->recieve(&item);
      log += got ? " r+" : " r-";
      if (got != !ref.empty()) c.viol("queue:receive", log);
      if (got && !ref.empty()) {
        if (Cell<T>::get(item) != ref.front()) c.viol("queue:order", log);
        ref.pop_front();
      }
      c.stat(got ? "received" : "empty_receives");
    } else {
      T item = q->waitFor();
      log += " w";
      if (Cell<T>::get(item) != ref.front()) c.viol("queue:order", log);
      ref.pop_front();
      c.stat("waited");
    }
    if (r.chance(5)) q->unblock_all();
    if (q->size() != ref.size() || q->remaining() != capa - ref.size()) c.viol("queue:size", log);
    if (c.violations) return;
  }
  c.distinct(log);
}

void queueSeqCase(Ctx& c) {
  Watch w(c, "queueseq");
  switch (c.idx % 3) {
    case 0: lockStep<std::unique_ptr<int>>(c); break;
    case 1: lockStep<string>(c); break;
    default: lockStep<int>(c);
  }
}

// ------------------------------------------------------------ queue, many threads

struct QItem {
  int prod = -1, seq = -1;
  string text;
};

struct QOp {
  int prod, seq;  // for successful operations
  long s, e;
  unsigned reserve;
};

void queueCase(Ctx& c) {
  auto& r = c.rng;
  Watch w(c, "queue");
  unsigned capa = (unsigned)r.range(1, 6);
  int np = (int)r.range(1, 3), nc = (int)r.range(1, 4);
  int per = (int)r.range(10, 120);
  util::bounded_queue<QItem> q(capa);
  std::atomic<long> clock{1};
  std::atomic<long> offered{0}, popping{0};
  std::atomic<int> over{0};
  std::vector<std::vector<QOp>> pushed(np + 1), popped(nc), refused(np + 1), nothing(nc);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < np + nc; ++i) seeds.push_back(r.next());
  string what = Msg() << "capacity " << capa << ", " << np << " producers, " << nc << " consumers, " << per << " elements each";
  auto push = [&](int p, int seq, Rng& rr) {
    QItem it{p, seq, Msg() << "element " << p << "/" << seq << " with some text"};
    unsigned reserve = rr.chance(20) ? (unsigned)rr.below(capa) : 0;
    for (;;) {
      long s = clock++;
      bool ok = q.offer(std::move(it), reserve);
      long pc = 0, oc = 0;
      if (ok) {
        oc = ++offered;
        pc = popping.load();
        if (oc - pc > (long)capa) ++over;
      }
      long e = clock++;
      auto& l = ok ? pushed[p] : refused[p];
      if (ok || l.size() < 2000) l.push_back({p, seq, s, e, reserve});
      if (ok) return;
      std::this_thread::yield();
    }
  };
  std::vector<std::thread> cons, prods;
  for (int k = 0; k < nc; ++k) {
    cons.emplace_back([&, k] {
      Rng rr(seeds[np + k]);
      int waits = (int)rr.below(101);
      for (;;) {
        pauseALittle(rr);
        QItem it;
        long s = clock++;
        if ((int)rr.below(100) < waits) {
          ++popping;
          it = q.waitFor();
        } else {
          ++popping;
          if (!q.recieve(&it)) {
            --popping;
            long e = clock++;
            if (nothing[k].size() < 2000) nothing[k].push_back({-1, -1, s, e, 0});
            std::this_thread::yield();
            continue;
          }
        }
        long e = clock++;
        popped[k].push_back({it.prod, it.seq, s, e, 0});
        if (it.prod == np) return;
      }
    });
  }
  for (int p = 0; p < np; ++p) {
    prods.emplace_back([&, p] {
      Rng rr(seeds[p]);
      for (int i = 0; i < per; ++i) {
        pauseALittle(rr);
        push(p, i, rr);
      }
    });
  }
  for (auto& t : prods) t.join();
  for (int k = 0; k < nc; ++k) push(np, k, r);
  for (auto& t : cons) t.join();
  if (over) c.viol("queue:over-capacity", what);
  if (q.size() != 0) c.viol("queue:left", what);
  // conservation
  std::map<std::pair<int, int>, int> cnt;
  std::vector<QOp> ins, outs;
  for (auto& v : pushed) ins.insert(ins.end(), v.begin(), v.end());
  for (auto& v : popped) outs.insert(outs.end(), v.begin(), v.end());
  for (auto& o : ins) ++cnt[{o.prod, o.seq}];
  for (auto& o : outs) --cnt[{o.prod, o.seq}];
  for (auto& x : cnt)
    if (x.second) {
      c.viol(x.second > 0 ? "queue:lost" : "queue:duplicated", Msg() << what << ": " << x.first.first << "/" << x.first.second);
      return;
    }
  // first in, first out: nothing overtakes an earlier element
  std::map<std::pair<int, int>, const QOp*> in;
  for (auto& o : ins) in[{o.prod, o.seq}] = &o;
  for (auto& a : outs) {
    auto ia = in[{a.prod, a.seq}];
    if (a.e < ia->s) c.viol("queue:before-it-was-put", what);
    for (auto& b : outs) {
      auto ib = in[{b.prod, b.seq}];
      if (ia->e < ib->s && b.e < a.s) {
        c.viol("queue:overtaken", Msg() << what << ": " << a.prod << "/" << a.seq << " by " << b.prod << "/" << b.seq);
        return;
      }
    }
  }
  // refusals are justified
  std::vector<long> inS, inE, outS, outE;
  for (auto& o : ins) inS.push_back(o.s), inE.push_back(o.e);
  for (auto& o : outs) outS.push_back(o.s), outE.push_back(o.e);
  for (auto v : {&inS, &inE, &outS, &outE}) std::sort(v->begin(), v->end());
  auto before = [](const std::vector<long>& v, long t) { return (long)(std::lower_bound(v.begin(), v.end(), t) - v.begin()); };
  for (auto& v : refused)
    for (auto& o : v) {
      long most = before(inS, o.e) - before(outE, o.s);
      if ((long)capa - most > (long)o.reserve) {
        c.viol("queue:refused-with-room", what);
        return;
      }
      c.stat("refused_offers");
    }
  for (auto& v : nothing)
    for (auto& o : v) {
      long least = before(inE, o.s) - before(outS, o.e);
      if (least > 0) {
        c.viol("queue:nothing-received-from-nonempty", what);
        return;
      }
      c.stat("empty_receives");
    }
  c.stat("elements", ins.size());
  c.stat("threads", np + nc);
  // the interleaving
  std::vector<std::pair<long, string>> ev;
  for (auto& o : ins) ev.push_back({o.e, Msg() << "+" << o.prod});
  for (size_t k = 0; k < popped.size(); ++k)
    for (auto& o : popped[k]) ev.push_back({o.e, Msg() << "-" << k});
  std::sort(ev.begin(), ev.end());
  string h;
  for (auto& x : ev) h += x.second;
  c.distinct(h);
}

// ------------------------------------------------------------ executor

struct Shared {
  std::atomic<long> clock{1};
  std::atomic<int> running{0}, most{0};
  std::atomic<bool> closed{false};
  std::atomic<int> late{0};
};

class MockTrainer : public tr::ITrainer {
 public:
  Shared* sh;
  const analysis::ScorerDef* want;
  int id;
  int behave = 0;  // 0 fine, 1 prepare fails, 2 compute fails, 3 prepare throws, 4 compute throws
  uint64_t seed;
  string comment, file;
  int prepared = 0, computed = 0;  // not atomic on purpose: only one thread at a time
  std::atomic<int> inside{0};
  std::atomic<int> overlaps{0}, badConf{0};
  long started = 0;

  void enter() {
    if (++inside != 1) ++overlaps;
    if (sh->closed) ++sh->late;
    int n = ++sh->running;
    int m = sh->most;
    while (n > m && !sh->most.compare_exchange_weak(m, n)) {
    }
  }
  void leave() {
    --sh->running;
    --inside;
  }
  void delay(int k) {
    Rng rr(seed + (uint64_t)k);
    pauseALittle(rr);
    if (rr.chance(5)) usleep((useconds_t)rr.below(3000));
  }
  Status prepare() override {
    enter();
    ++prepared;
    started = sh->clock++;
    delay(1);
    leave();
    if (behave == 1) return Status::InvalidParameter() << "prepare of " << id;
    if (behave == 3) throw std::runtime_error("thrown by prepare");
    return Status::Ok();
  }
  Status compute(const analysis::ScorerDef* sconf) override {
    enter();
    ++computed;
    if (sconf != want) ++badConf;
    delay(2);
    leave();
    if (behave == 2) return Status::InvalidState() << "compute of " << id;
    if (behave == 4) throw std::runtime_error("thrown by compute");
    return Status::Ok();
  }
  float loss() const override { return 0; }
  util::ArraySlice<tr::ScoredFeature> featureDiff() const override { return {}; }
  tr::ExampleInfo exampleInfo() const override { return tr::ExampleInfo{file, comment, (i64)id * 7 + 1}; }
  const analysis::OutputManager& outputMgr() const override { abort(); }
  void markGold(std::function<void(analysis::LatticeNodePtr)>) const override {}
  analysis::Lattice* lattice() const override { return nullptr; }
  void setGlobalBeam(const tr::GlobalBeamTrainConfig&) override {}
};

void executorCase(Ctx& c) {
  auto& r = c.rng;
  Watch w(c, "executor");
  u32 nt = (u32)r.range(1, 6);
  int total = (int)r.range(0, 60);
  analysis::ScorerDef sdef;
  Shared sh;
  std::vector<std::unique_ptr<MockTrainer>> ts;
  int failing = r.chance(50) ? 0 : (int)r.range(1, 60);
  for (int i = 0; i < total; ++i) {
    ts.emplace_back(new MockTrainer);
    auto& t = *ts.back();
    t.sh = &sh;
    t.want = &sdef;
    t.id = i;
    t.seed = r.next();
    t.comment = Msg() << "comment" << i;
    t.file = "corpus.txt";
    if ((int)r.below(100) < failing) t.behave = (int)r.range(1, 4);
  }
  // 0: everything is waited for, 1: stops early
  bool early = r.chance(40);
  int stopAfter = early ? (int)r.below((uint64_t)total + 1) : total;
  int rounds = r.chance(30) ? 2 : 1;
  string what = Msg() << nt << " threads, " << total << " examples, " << stopAfter << " results waited for, " << rounds << " rounds";
  std::vector<int> delivered(total, 0), submitted(total, 0);
  std::vector<int> order;
  auto take = [&](tr::TrainingExecutionResult res) {
    auto t = static_cast<MockTrainer*>(res.trainer);
    if (t == nullptr) {
      c.viol("executor:empty-result", what);
      return;
    }
    delivered[t->id]++;
    order.push_back(t->id);
    bool ok = (bool)res.processStatus;
    if (ok != (t->behave == 0)) c.viol("executor:status", Msg() << what << ": " << t->id);
    if (!ok) {
      auto m = msg(res.processStatus);
      auto has = [&](const string& x) { return m.find(x) != string::npos; };
      static const char* const texts[] = {"", "prepare of", "compute of", "thrown by prepare", "thrown by compute"};
      if (!has(t->comment) || !has(Msg() << "line " << t->id * 7 + 1) || !has(t->file) || !has(texts[t->behave]))
        c.viol("executor:message", what + ": " + m);
      c.stat("failed_examples");
    }
    c.stat("results");
  };
  long processedBefore = 0;
  {
    std::unique_ptr<tr::TrainingExecutor> ex(new tr::TrainingExecutor);
    auto s = ex->initialize(&sdef, nt);
    if (!s) {
      c.viol("executor:initialize", msg(s));
      return;
    }
    if (r.chance(30)) usleep((useconds_t)r.below(500));
    for (int rd = 0; rd < rounds; ++rd) {
      int sub = 0, got = 0;
      bool last = rd == rounds - 1;
      int limit = last ? stopAfter : total;
      while (got < limit || (last && early && sub < total && r.chance(70))) {
        while (sub < total) {
          if (!ex->submitNext(ts[sub].get())) {
            c.stat("queue_full");
            break;
          }
          submitted[sub]++;
          ++sub;
          if (r.chance(10)) break;
        }
        if (got >= limit) break;
        if (got >= sub) continue;
        pauseALittle(r);
        if (r.chance(30)) {
          tr::TrainingExecutionResult res;
          if (ex->resultWithoutWait(&res)) {
            ++got;
            take(std::move(res));
          }
        } else {
          ++got;
          take(ex->waitOne());
        }
        if (c.violations) _exit(98);
      }
      if (!(last && early) && ex->nowReady() != 0) c.viol("executor:more-results", what);
    }
    if (r.chance(50)) usleep((useconds_t)r.below(1500));
    ex.reset();
    sh.closed = true;
  }
  usleep(200);
  if (sh.late || sh.running) c.viol("executor:works-after-end", what);
  if (sh.most > (int)nt) c.viol("executor:too-many-at-once", what);
  for (int i = 0; i < total; ++i) {
    auto& t = *ts[i];
    if (t.overlaps) c.viol("executor:two-threads-for-one-example", what);
    if (t.badConf) c.viol("executor:other-scorers", what);
    if (delivered[i] > submitted[i]) c.viol("executor:delivered-twice", what);
    if (t.prepared > submitted[i] || t.prepared < delivered[i]) c.viol("executor:processed", what);
    if (!early && (t.prepared != rounds || delivered[i] != rounds)) c.viol("executor:not-once", what);
    if (t.behave == 0 || t.behave == 2 || t.behave == 4) {
      if (t.computed != t.prepared) c.viol("executor:computed", what);
    } else if (t.computed) {
      c.viol("executor:computed-after-failure", what);
    }
    processedBefore += t.prepared;
  }
  if (nt == 1) {
    for (size_t i = 1; i < order.size(); ++i)
      if (order[i] != (order[i - 1] + 1) % total) c.viol("executor:order", what);
  }
  c.stat("processed", (uint64_t)processedBefore);
  c.stat(early ? "stopped_early" : "finished");
  c.stat(Msg() << "at_once_" << sh.most.load());
  string h = Msg() << nt << ":";
  for (auto x : order) h += Msg() << x << ",";
  c.distinct(h);
}


// ------------------------------------------------------------ corpora

struct GWord {
  string surf;
  Strs vals;       // by training field
  int row = -1;    // the dictionary row behind it
};

struct GSent {
  std::vector<GWord> words;
  string comment;
  string surface() const {
    string o;
    for (auto& w : words) o += w.surf;
    return o;
  }
};

// a model which can be trained: all training fields are strings
bool trainableWorld(Rng& r, vs::World* w) {
  for (int k = 0; k < 20; ++k) {
    vs::GenOpts o;
    o.trainChance = 100;
    o.lowPriority = false;
    o.maxRows = r.chance(20) ? 60 : 24;
    *w = vs::genWorld(r, o);
    auto& t = w->spec.train;
    t.erase(std::remove_if(t.begin(), t.end(), [&](const vs::TrainF& f) { return w->spec.field(f.field)->type != 'S'; }), t.end());
    fixWorld(*w);
    if (w->spec.train.empty() || !usedFields(w->spec).count(w->spec.trieField().name)) continue;
    // the surface has to be trained
    bool ok = false;
    for (auto& f : t) ok |= w->spec.field(f.field)->trie && f.weight16 != 0;
    if (ok) return true;
  }
  return false;
}

bool plainValue(const string& v) { return !v.empty() && v.find_first_of(string(" _\"#\n\r\0", 8)) == string::npos; }

GSent randGold(Rng& r, const vs::World& w, bool plain) {
  GSent g;
  auto& s = w.spec;
  int trie = s.trieField().col - 1;
  int n = 1 + (int)r.skewed(7);
  for (int i = 0; i < n; ++i) {
    GWord x;
    int row = (int)r.below(w.dic.rows.size());
    bool ok = true;
    auto fill = [&](int rr) {
      x.vals.clear();
      for (auto& f : s.train) x.vals.push_back(w.dic.rows[rr][s.field(f.field)->col - 1]);
    };
    if (r.chance(80)) {
      fill(row);
      x.surf = w.dic.rows[row][trie];
      x.row = row;
    } else {
      fill(row);
      x.surf = vs::randWord(r, w.alphabet, 4);
    }
    for (size_t k = 0; k < s.train.size(); ++k) {
      if (s.field(s.train[k].field)->trie) {
        x.vals[k] = x.surf;
      } else if (r.chance(12)) {
        x.row = -1;
        x.vals[k] = r.chance(60) ? w.dic.rows[r.below(w.dic.rows.size())][s.field(s.train[k].field)->col - 1] : "新しい" + std::to_string(r.below(5));
      }
      if (plain && !plainValue(x.vals[k])) ok = false;
      if (x.vals[k].find('\0') != string::npos) ok = false;
    }
    if (x.surf.empty() || !ok) continue;
    g.words.push_back(x);
  }
  if (r.chance(30)) g.comment = "S-ID:" + std::to_string(r.below(10000));
  return g;
}

string goldText(Rng& r, const vs::World& w, const std::vector<GSent>& corpus, bool dbl) {
  bool empties = r.chance(30);
  string o;
  for (auto& g : corpus) {
    if (dbl) {
      for (size_t i = 0; i < g.words.size(); ++i) {
        if (i) o += " ";
        for (size_t k = 0; k < g.words[i].vals.size(); ++k) o += (k ? "_" : "") + g.words[i].vals[k];
      }
      if (!g.comment.empty()) o += " # " + g.comment;
      o += "\n";
    } else {
      while (empties && r.chance(10)) o += r.chance(50) ? "EOS\n" : "\n";
      if (!g.comment.empty()) o += "# " + g.comment + "\n";
      for (auto& x : g.words) {
        for (size_t k = 0; k < x.vals.size(); ++k) {
          if (k) o += ",";
          auto& v = x.vals[k];
          bool q = v.find_first_of(",\"\n\r") != string::npos || v.empty() || v[0] == '#' || v == "EOS" || r.chance(5);
          if (!q) {
            o += v;
            continue;
          }
          o += '"';
          for (char ch : v) o += ch == '"' ? string("\"\"") : string(1, ch);
          o += '"';
        }
        o += "\n";
      }
      o += r.chance(50) ? "EOS\n" : "\n";
    }
  }
  return o;
}

bool usableCorpus(const vs::World& w, const std::vector<GSent>& corpus) {
  // a sentence with one word of one field can look like an end marker
  for (auto& g : corpus) {
    if (g.words.empty()) return false;
    for (auto& x : g.words)
      if (x.vals.size() == 1 && (x.vals[0] == "EOS" || x.vals[0].empty())) return false;
    if (g.surface().size() > 3500) return false;
  }
  return true;
}

tr::TrainingConfig randTrainConf(Rng& r) {
  tr::TrainingConfig t;
  static const tr::TrainingMode modes[] = {tr::TrainingMode::Full, tr::TrainingMode::FalloffBeam, tr::TrainingMode::MaxViolation};
  t.mode = r.chance(50) ? tr::TrainingMode::Full : r.pick(modes);
  t.featureNumberExponent = (u32)r.range(6, 13);
  t.scw.C = r.chance(30) ? (float)r.range(1, 40) / 20.f : 1.f;
  t.scw.phi = r.chance(30) ? (float)r.range(1, 100) / 10.f : 5.f;
  t.randomSeed = r.chance(50) ? 0xdeadbeef : (u32)r.next();
  t.beamSize = 1 + (int)r.skewed(6);
  return t;
}

// ------------------------------------------------------------ one example after another

StringPiece weightBytes(tr::SoftConfidenceWeighted& scw, model::ModelInfo* keep) {
  keep->parts.clear();
  scw.exportModel(keep);
  return keep->parts.back().data.at(1);
}

std::vector<float> weightsOf(tr::SoftConfidenceWeighted& scw) {
  model::ModelInfo mi;
  auto b = weightBytes(scw, &mi);
  std::vector<float> v(b.size() / sizeof(float));
  memcpy(v.data(), b.data(), b.size());
  return v;
}

struct Step {
  int kind;  // 0 both, 1 top, 2 gold
  int top = -1, gold = -1;
  double loss = 0;
  bool error = false, doubtful = false;
};

struct ExampleCheck {
  Ctx& c;
  Env& e;
  const tr::TrainingConfig& conf;
  tr::Trainer& t;
  VAnalyzer& an;
  tr::SoftConfidenceWeighted& scw;
  std::vector<double>& diag;
  string what;

  std::vector<LatticeNodePtr> top;
  bool zero = false;

  bool fail(const string& key, const string& d) {
    c.viol(key, d + "\n" + what);
    return false;
  }

  // the nodes of the gold path are the ones which were annotated
  bool gold(const GSent& g, const tr::TrainFieldsIndex& tio) {
    auto& spec = e.core->spec();
    auto nodes = t.goldenPath().nodes();
    if (nodes.size() != g.words.size()) return fail("gold:size", Msg() << nodes.size());
    auto l = an.lattice();
    int pos = 0;
    bool added = t.wasGoldAdded();
    bool allDic = true;
    for (size_t i = 0; i < nodes.size(); ++i) {
      auto& x = g.words[i];
      int len = (int)vt::decode(x.surf).cps.size();
      auto& nd = nodes.at(i);
      if (nd.boundary != pos + 2) return fail("gold:boundary", Msg() << i << " at " << nd.boundary);
      auto st = l->boundary(nd.boundary)->starts();
      if (nd.position >= st->numEntries()) return fail("gold:position", Msg() << i << " at " << nd.boundary << "/" << nd.position);
      auto& nfo = st->nodeInfo().at(nd.position);
      if ((int)nfo.numCodepoints() != len) return fail("gold:length", Msg() << i << ": " << nfo.numCodepoints() << " for " << len);
      auto data = st->entryData().row(nd.position);
      bool isDic = nfo.entryPtr().isDic();
      if (x.row < 0 || isTemplate(x.row)) allDic = false;
      else if (!isDic) return fail("gold:dictionary-word-not-found", Msg() << "word " << i);
      // values of candidates for unknown words which are like the surface are its hash
      i32 sh = analysis::hashUnkString(x.surf);
      bool knownSurface = true;
      auto like = [&](util::ArraySlice<i32> d, bool strict) {
        for (size_t k = 0; k < spec.training.fields.size(); ++k) {
          auto& tf = spec.training.fields[k];
          if (tf.weight == 0) continue;
          i32 v = 0, got = d.at(tf.dicIdx);
          bool known = tio.fields()[k].valueOf(x.vals[k], &v);
          if (k == (size_t)spec.training.surfaceIdx) knownSurface = known;
          if (known && got == v) continue;
          if (got == sh && (!strict || !known)) continue;
          return false;
        }
        return true;
      };
      bool same = like(data, isDic);
      if (isDic) {
        if (!same) return fail("gold:dictionary-word", Msg() << "word " << i);
        c.stat("gold_dictionary");
      } else {
        auto created = [&](int p) { return l->boundary(nd.boundary)->starts()->nodeInfo().at(p).entryPtr(); };
        auto xn = an.extraNodesContext()->node(created(nd.position));
        if (!xn) return fail("gold:node", "");
        if (str(xn->header.unk.surface) != x.surf) return fail("gold:surface", Msg() << "word " << i << ": " << str(xn->header.unk.surface));
        // zero is a valid pointer too, to the first entry
        bool ambiguous = false;
        for (auto& u : spec.unkCreators) ambiguous |= u.patternPtr == 0 || u.type == spec::UnkMakerType::Normalize;
        if (ambiguous) {
          pos += len;
          continue;
        }
        bool made = xn->header.unk.templatePtr.rawValue() == 0;
        if (made && !same) return fail("gold:created-values", Msg() << "word " << i);
        for (size_t p = 0; p < st->numEntries(); ++p) {
          auto& o = st->nodeInfo().at(p);
          auto d = st->entryData().row(p);
          if ((int)o.numCodepoints() != len || p == nd.position) continue;
          if (o.entryPtr().isDic()) {
            if (like(d, true)) return fail("gold:not-from-dictionary", Msg() << "word " << i);
          } else if (!knownSurface && str(an.extraNodesContext()->node(o.entryPtr())->header.unk.surface) == x.surf) {
            if (!same && like(d, false)) return fail("gold:other-candidate", Msg() << "word " << i);
            if (made && an.extraNodesContext()->node(o.entryPtr())->header.unk.templatePtr.rawValue() != 0) return fail("gold:created-besides-candidate", Msg() << "word " << i);
          }
        }
        c.stat(made ? "gold_created" : same ? "gold_candidate" : "gold_other_candidate");
      }
      pos += len;
    }
    if (allDic && added) return fail("gold:added", "all words are in the dictionary");
    c.stat(added ? "gold_added" : "gold_in_lattice");
    return true;
  }

  bool isTemplate(int row) const {
    for (auto& u : e.w.spec.unks)
      if (u.row == row + 1) return true;
    return false;
  }

  double score(const std::vector<float>& w, const std::vector<u32>& f) {
    double x = 0;
    for (auto v : f) x += w[v];
    return x;
  }

  std::vector<u32> feats(const std::vector<LatticeNodePtr>& path, size_t i) {
    auto at = [&](int k) {
      if (k >= 0) return path[k];
      return k == -1 ? LatticeNodePtr{1, 0} : LatticeNodePtr{0, 0};
    };
    features::NgramFeaturesComputer nfc{an.lattice(), e.core->features()};
    std::vector<u32> r(e.core->spec().features.ngram.size());
    features::NgramFeatureRef ref{at((int)i - 2), at((int)i - 1), at((int)i)};
    nfc.calculateNgramFeatures(ref, &r);
    for (auto& v : r) v &= conf.numFeatures() - 1;
    return r;
  }

  bool loss(const std::vector<float>& w) {
    auto& spec = e.core->spec();
    auto l = an.lattice();
    u16 eos = (u16)(l->createdBoundaryCount() - 1);
    std::vector<LatticeNodePtr> g;
    for (auto& n : t.goldenPath().nodes()) g.push_back(n);
    g.push_back({eos, 0});
    top.clear();
    const ConnectionPtr* p = &l->boundary(eos)->starts()->beamData().at(0).ptr;
    while (p->boundary >= 2) {
      top.push_back({p->boundary, p->right});
      p = p->previous;
      if (top.size() > 10000) return fail("train:path", "");
    }
    std::reverse(top.begin(), top.end());
    double full = 0;
    for (auto& f : spec.training.fields) full += f.weight;
    std::vector<double> ts, gs;
    std::vector<std::vector<u32>> tf, gf;
    for (size_t i = 0; i < top.size(); ++i) {
      tf.push_back(feats(top, i));
      ts.push_back((i ? ts.back() : 0) + score(w, tf.back()));
    }
    for (size_t i = 0; i < g.size(); ++i) {
      gf.push_back(feats(g, i));
      gs.push_back((i ? gs.back() : 0) + score(w, gf.back()));
    }
    std::vector<Step> steps;
    size_t a = 0, b = 0;
    bool same = true;
    double total = 0;
    bool doubtful = false;
    while (a < top.size() || b < g.size()) {
      Step s;
      int ba = a < top.size() ? top[a].boundary : 1 << 20, bb = b < g.size() ? g[b].boundary : 1 << 20;
      if (ba == bb) {
        s.kind = 0;
        s.top = (int)a;
        s.gold = (int)b;
        if (ba != eos) {
          auto data = l->boundary(ba)->starts()->entryData();
          bool mism = false;
          for (auto& f : spec.training.fields) {
            // fields without weights which are not analysed have no data
            if (f.dicIdx < 0) continue;
            if (data.row(top[a].position).at(f.dicIdx) != data.row(g[b].position).at(f.dicIdx)) {
              if (f.weight != 0) mism = true;
              else s.doubtful = true;  // whether these count is not specified
              s.loss += f.weight;
            }
          }
          s.error = mism;
          if (mism) same = false;
        }
        double v = ts[a] - gs[b];
#ifdef JPP_TRAIN_VIOLATION_INVALID
        if (std::fabs(v - 0.001) < 2e-5 * (1 + std::fabs(ts[a]) + std::fabs(gs[b]))) s.doubtful = s.doubtful || !s.error;
        if (v > 0.001) s.error = true;
#else
        (void)v;
#endif
        ++a, ++b;
      } else if (ba < bb) {
        s.kind = 1;
        s.top = (int)a++;
        s.loss = full;
        s.error = true;
        same = false;
      } else {
        s.kind = 2;
        s.gold = (int)b++;
        s.loss = full;
        s.error = true;
        same = false;
      }
      total += s.loss;
      doubtful |= s.doubtful && !s.error;
      steps.push_back(s);
    }
    double want = total / (steps.size() * full);
    double got = t.lossValue();
    if (!(std::fabs(want - got) <= 1e-5)) return fail("train:loss", Msg() << got << " instead of " << want);
    if (same != (got == 0)) return fail("train:zero-loss", Msg() << "loss " << got << ", paths are " << (same ? "equal" : "different"));
    zero = same;
    c.stat(same ? "zero_losses" : "losses");
    // which features may change
    std::map<u32, double> have;
    for (auto& f : t.featureDiff()) {
      if (f.feature >= conf.numFeatures()) return fail("train:feature-index", Msg() << f.feature);
      if (!std::isfinite(f.score)) return fail("train:feature-score", Msg() << f.feature << " " << f.score);
      if (f.score != 0) have[f.feature] += f.score;
    }
    if (doubtful) {
      c.stat("doubtful_steps");
      return true;
    }
    auto expect = [&](size_t till) {
      std::map<u32, double> d;
      for (size_t i = 0; i < till && i < steps.size(); ++i) {
        auto& s = steps[i];
        if (!s.error) continue;
        if (s.top >= 0)
          for (auto f : tf[s.top]) d[f] -= 1;
        if (s.gold >= 0)
          for (auto f : gf[s.gold]) d[f] += 1;
      }
      double P = 0, N = 0;
      for (auto& x : d) (x.second > 0 ? P : N) += std::fabs(x.second);
      double wt = N != 0 ? P / N : 1, wp = 1, wn = wt;
      if (wt > 2 && P != 0) wp = N / P, wn = 1;
      std::map<u32, double> o;
      for (auto& x : d) {
        double v = x.second * (x.second > 0 ? wp : wn);
        if (v != 0) o[x.first] = v;
      }
      return o;
    };
    auto eq = [&](const std::map<u32, double>& x) {
      if (x.size() != have.size()) return false;
      for (auto& y : x) {
        auto it = have.find(y.first);
        if (it == have.end() || std::fabs(it->second - y.second) > 1e-4 * (1 + std::fabs(y.second))) return false;
      }
      return true;
    };
    bool ok = false;
    if (conf.mode == tr::TrainingMode::Full) ok = eq(expect(steps.size()));
    else
      for (size_t k = 0; k <= steps.size() && !ok; ++k) ok = eq(expect(k));
    if (!ok) {
      string d;
      auto ex = expect(steps.size());
      for (auto& x : ex) d += Msg() << " " << x.first << ":" << x.second;
      d += " -- got";
      for (auto& x : have) d += Msg() << " " << x.first << ":" << x.second;
      bool wrongWay = false;
      for (auto& x : have) {
        auto it = ex.find(x.first);
        if (it != ex.end() && it->second * x.second < 0) wrongWay = true;
      }
      return fail(wrongWay ? "train:feature-direction" : "train:features", d);
    }
    c.stat("feature_diffs");
    c.stat("changed_features", have.size());
    return true;
  }

  bool update(std::vector<float>* w) {
    auto before = *w;
    double y = t.lossValue();
    scw.update(t.lossValue(), t.featureDiff());
    *w = weightsOf(scw);
    if (w->size() != before.size()) return fail("update:size", "");
    auto fd = t.featureDiff();
    double m = 0, v = 0;
    std::map<u32, double> x;
    for (auto& f : fd) {
      m += before[f.feature] * f.score;
      v += f.score * f.score * diag[f.feature];
      x[f.feature] += f.score;
    }
    m *= y;
    double phi = conf.scw.phi, C = conf.scw.C;
    double psi = 1 + phi * phi / 2, zeta = 1 + phi * phi;
    double alpha = 0, beta = 0;
    if (y > 1e-5 && v > 0) {
      alpha = (-m * psi + std::sqrt(m * m * phi * phi * phi * phi / 4 + v * phi * phi * zeta)) / (v * zeta);
      alpha = std::min(C, std::max(0.0, alpha));
      double q = -alpha * v * phi + std::sqrt(alpha * alpha * v * v * phi * phi + 4 * v);
      double u = q * q / 4;
      beta = alpha * phi / (std::sqrt(u) + v * alpha * phi);
    }
    for (size_t i = 0; i < before.size(); ++i) {
      float a = before[i], b = (*w)[i];
      auto it = x.find((u32)i);
      if (it == x.end() || it->second == 0) {
        if (memcmp(&a, &b, sizeof a)) return fail("update:other-weight", Msg() << i << ": " << a << " to " << b);
        continue;
      }
      double d = alpha * y * diag[i] * it->second;
      if (!std::isfinite(b) || std::fabs(b - (a + d)) > 1e-5 + 2e-4 * std::fabs(d) + 1e-6 * std::fabs(a))
        return fail("update:weight", Msg() << i << ": " << a << " to " << b << ", expected a change of " << d);
      if ((b - a) * it->second < 0) return fail("update:direction", Msg() << i << ": " << a << " to " << b << " for " << it->second);
      if (b != a) c.stat("updated_weights");
    }
    for (auto& f : fd) {
      double cur = diag[f.feature];
      diag[f.feature] = (float)(cur - beta * cur * cur * f.score * f.score);
    }
    if (y == 0 && memcmp(before.data(), w->data(), before.size() * sizeof(float))) return fail("update:zero-loss", "");
    c.stat("updates");
    return true;
  }
};

void lossCase(Ctx& c) {
  auto& r = c.rng;
  Env e;
  if (!trainableWorld(r, &e.w)) {
    c.stat("no_world");
    return;
  }
  auto dir = c.tmp("");
  auto s = e.build(r, dir);
  if (!s) {
    c.viol("build", msg(s));
    return;
  }
  auto conf = randTrainConf(r);
  AnalyzerConfig ac;
  ac.pageSize = 128 * 1024;
  ac.storeAllPatterns = true;
  auto an = e.analyzer(conf.beamSize, ac);
  tr::SoftConfidenceWeighted scw(conf);
  s = an->initScorers(*scw.scorers());
  if (!s) {
    c.viol("init-scorers", msg(s));
    return;
  }
  tr::TrainFieldsIndex tio;
  s = tio.initialize(*e.core);
  if (!s) {
    c.viol("training-io", msg(s));
    return;
  }
  bool dbl = r.chance(50);
  std::vector<GSent> corpus;
  int n = (int)r.range(1, 6);
  for (int i = 0; i < n; ++i) {
    auto g = randGold(r, e.w, dbl);
    if (usableCorpus(e.w, {g})) corpus.push_back(g);
  }
  auto text = goldText(r, e.w, corpus, dbl);
  string what = Msg() << "mode " << (int)conf.mode << " beam " << conf.beamSize << " C " << conf.scw.C << " phi " << conf.scw.phi << "\n" << text << "--- dictionary\n" << e.csv;
  std::vector<double> diag(conf.numFeatures(), 1.0);
  auto w = weightsOf(scw);
  if (r.chance(50)) {
    scw.setAllWeights(r.chance(50) ? 0.01f : 0.f);
    w = weightsOf(scw);
  }
  tr::Trainer t(an.get(), &e.core->spec().training, conf);
  tr::FullExampleReader rdr;
  rdr.setTrainingIo(&tio);
  s = dbl ? rdr.initDoubleCsv(text) : rdr.initCsv(text);
  for (size_t i = 0; i <= corpus.size() && s; ++i) {
    t.reset();
    s = rdr.readFullExample(&t.example());
    if (!s) break;
    if (rdr.finished() != (i == corpus.size())) {
      c.viol("corpus:end", Msg() << i << "\n" << what);
      return;
    }
    if (i == corpus.size()) break;
    auto& g = corpus[i];
    if (str(t.example().surface()) != g.surface() || t.example().numNodes() != (int)g.words.size()) {
      c.viol("corpus:sentence", str(t.example().surface()) + " instead of " + g.surface() + "\n" + what);
      return;
    }
    auto wantComment = g.comment.empty() ? "" : (dbl ? g.comment : "# " + g.comment);
    if (str(t.example().comment()) != wantComment) {
      c.viol("corpus:comment", "[" + str(t.example().comment()) + "]\n" + what);
      return;
    }
    if (r.chance(30)) {
      // as for the beams of training
      an->setGlobalBeam(r.chance(30) ? 0 : (int)r.range(2, 12), r.chance(50) ? 1 : 0, (int)r.range(1, 8));
      t.resetState();
    }
    ExampleCheck k{c, e, conf, t, *an, scw, diag, Msg() << "sentence " << i << " " << g.surface() << "\n" << what, {}, false};
    s = t.prepare();
    if (!s) {
      c.viol("train:prepare", msg(s) + "\n" + k.what);
      return;
    }
    if (!k.gold(g, tio)) return;
    int iters = (int)r.range(1, 6);
    for (int it = 0; it < iters; ++it) {
      s = t.compute(scw.scorers());
      if (!s) {
        c.viol("train:compute", msg(s) + "\n" + k.what);
        return;
      }
      t.computeTrainingLoss();
      if (!k.loss(w) || !k.update(&w)) return;
      if (k.zero && r.chance(70)) break;
    }
    c.distinct(k.what);
    c.stat("sentences");
  }
  if (!s) c.viol("corpus:rejected", msg(s) + "\n" + what);
  // the saved state
  if (r.chance(20)) {
    scw.dumpModel(dir, "dump", 3);
    model::FilesystemModel fm;
    model::ModelInfo mi;
    auto st = fm.open(dir + "/dump.000003.mdldump");
    if (st) st = fm.load(&mi);
    if (!st || mi.parts.size() != 1 || mi.parts[0].data.size() != 3) {
      c.viol("dump:load", msg(st));
      return;
    }
    auto& d = mi.parts[0].data;
    if (d[1].size() != w.size() * 4 || memcmp(d[1].data(), w.data(), w.size() * 4)) c.viol("dump:weights", what);
    std::vector<float> dg(w.size());
    if (d[2].size() == w.size() * 4) memcpy(dg.data(), d[2].data(), d[2].size());
    for (size_t i = 0; i < dg.size(); ++i) {
      if (std::fabs(dg[i] - diag[i]) > 1e-3 * (1 + std::fabs(diag[i])) || dg[i] < 0) {
        c.viol("dump:matrix", Msg() << i << ": " << dg[i] << " instead of " << diag[i] << "\n" << what);
        break;
      }
    }
    c.stat("dumps");
  }
}

// ------------------------------------------------------------ whole training runs

struct RunResult {
  bool ok = true;
  string error;
  std::vector<double> losses;
  string model;
};

RunResult trainRun(tr::TrainingArguments args, const string& out) {
  RunResult res;
  auto check = [&](const Status& s) {
    if (!s && res.ok) {
      res.ok = false;
      res.error = msg(s);
    }
    return (bool)s;
  };
  JumanppEnv je;
  if (!check(je.loadModel(args.modelFilename))) return res;
  je.setBeamSize((u32)args.trainingConfig.beamSize);
  tr::TrainingEnv env{args, &je};
  if (!check(env.initFeatures(nullptr)) || !check(env.initOther())) return res;
  if (!args.partialCorpus.empty() && !check(env.loadPartialExamples(args.partialCorpus))) return res;
  if (!check(env.loadInput(args.corpusFilename))) return res;
  for (u32 ep = 0; ep < args.maxEpochs; ++ep) {
    env.resetInput();
    env.changeGlobalBeam((float)ep / args.maxEpochs);
    if (!check(env.trainOneEpoch())) return res;
    res.losses.push_back(env.epochLoss());
  }
  auto m = je.modelInfoCopy();
  env.exportScwParams(&m, args.comment);
  model::ModelSaver sv;
  unlink(out.c_str());  // unused bytes of an existing file stay
  if (!check(sv.open(out)) || !check(sv.save(m))) return res;
  std::ifstream i(out, std::ios::binary);
  res.model.assign(std::istreambuf_iterator<char>(i), {});
  return res;
}

bool makeRun(Ctx& c, Env& e, tr::TrainingArguments* a, string* what, int* sentences) {
  auto& r = c.rng;
  if (!trainableWorld(r, &e.w)) {
    c.stat("no_world");
    return false;
  }
  auto dir = c.tmp("");
  auto s = e.build(r, dir);
  if (!s) {
    c.viol("build", msg(s));
    return false;
  }
  bool dbl = r.chance(50);
  std::vector<GSent> corpus;
  int n = (int)r.range(1, 14);
  for (int i = 0; i < n; ++i) {
    auto g = randGold(r, e.w, dbl);
    if (usableCorpus(e.w, {g})) corpus.push_back(g);
  }
  auto text = goldText(r, e.w, corpus, dbl);
  *sentences = (int)corpus.size();
  a->trainingConfig = randTrainConf(r);
  a->trainingConfig.inputFormat = dbl ? tr::InputFormat::Morph : tr::InputFormat::Csv;
  a->batchSize = (u32)r.range(1, 8);
  a->batchMaxIterations = (u32)r.range(1, 3);
  a->maxEpochs = (u32)r.range(1, 3);
  a->batchLossEpsilon = r.chance(50) ? 1e-3f : 0.f;
  a->modelFilename = e.modelFile;
  a->corpusFilename = dir + "/corpus.txt";
  std::ofstream(a->corpusFilename, std::ios::binary | std::ios::trunc) << text;
  a->comment = "trained";
  if (r.chance(50)) {
    auto& g = a->globalBeam;
    g.minLeftBeam = (i32)r.range(1, 5);
    g.maxLeftBeam = g.minLeftBeam + (i32)r.below(6);
    if (r.chance(50)) {
      g.minRightBeam = (i32)r.range(1, 4);
      g.maxRightBeam = g.minRightBeam + (i32)r.below(4);
      g.minRightCheck = (i32)r.range(1, 3);
      g.maxRightCheck = g.minRightCheck + (i32)r.below(3);
    }
    g.fullFirstIter = r.chance(30);
  }
  *what = Msg() << "mode " << (int)a->trainingConfig.mode << " beam " << a->trainingConfig.beamSize << " batch " << a->batchSize << " iterations " << a->batchMaxIterations << " epochs " << a->maxEpochs << " global beam " << a->globalBeam.minLeftBeam << "-" << a->globalBeam.maxLeftBeam << "/" << a->globalBeam.minRightBeam << "-" << a->globalBeam.maxRightBeam << "/" << a->globalBeam.minRightCheck << "-" << a->globalBeam.maxRightCheck << "\n" << text << "--- dictionary\n" << e.csv;
  return true;
}

void reproCase(Ctx& c) {
  auto& r = c.rng;
  Watch w(c, "repro", 120);
  Env e;
  tr::TrainingArguments a;
  string what;
  int n = 0;
  if (!makeRun(c, e, &a, &what, &n)) return;
  a.numThreads = 1;
  if (r.chance(40)) {
    // sentences with boundaries
    string part;
    int k = (int)r.range(1, 4);
    for (int i = 0; i < k; ++i) {
      for (int j = 0; j < 2; ++j) {
        int ri = (int)r.below(e.w.dic.rows.size());
        bool templ = false;
        for (auto& u : e.w.spec.unks) templ |= u.row == ri + 1;
        if (templ) continue;
        auto& row = e.w.dic.rows[ri];
        auto& x = row[e.w.spec.trieField().col - 1];
        if (x.find_first_of(string("\t\n\r&\0", 5)) == string::npos && x[0] != '#') part += x + "\n";
      }
      part += "\n";
    }
    a.partialCorpus = c.tmp("part.txt");
    std::ofstream(a.partialCorpus, std::ios::binary | std::ios::trunc) << part;
    c.stat("with_partial");
    what += "--- partial\n" + part;
  }
  auto one = trainRun(a, c.tmp("one.mdl"));
  // something else happens in between
  std::vector<std::unique_ptr<char[]>> junk;
  for (int i = 0; i < 20; ++i) {
    size_t sz = r.below(60000) + 1;
    junk.emplace_back(new char[sz]);
    memset(junk.back().get(), (int)r.below(256), sz);
  }
  junk.resize(r.below(10));
  auto two = trainRun(a, c.tmp("two.mdl"));
  if (!one.ok) c.viol("repro:failed", one.error + "\n" + what);
  if (one.ok != two.ok || one.error != two.error) c.viol("repro:status", one.error + " / " + two.error + "\n" + what);
  if (one.model != two.model) {
    size_t at = std::mismatch(one.model.begin(), one.model.begin() + std::min(one.model.size(), two.model.size()), two.model.begin()).first - one.model.begin();
    c.viol("repro:model", Msg() << "byte " << at << " of " << one.model.size() << " and " << two.model.size() << "\n" << what);
  }
  if (one.losses != two.losses) c.viol("repro:losses", what);
  for (auto l : one.losses)
    if (!std::isfinite(l) || l < 0) c.viol("repro:loss", Msg() << l << "\n" << what);
  if (one.ok) {
    JumanppEnv je;
    auto s = je.loadModel(c.tmp("one.mdl"));
    if (s) s = je.initFeatures(nullptr);
    if (!s || !je.hasPerceptronModel()) c.viol("repro:trained-model", msg(s) + "\n" + what);
    model::FilesystemModel fm;
    model::ModelInfo mi;
    if (fm.open(c.tmp("one.mdl")) && fm.load(&mi)) {
      auto p = mi.firstPartOf(model::ModelPartKind::Perceprton);
      if (p && p->data.size() == 2) {
        auto wb = p->data[1];
        string h(wb.char_begin(), wb.size());
        if (wb.size() != sizeof(float) << a.trainingConfig.featureNumberExponent) c.viol("repro:weights-size", what);
        for (size_t i = 0; i + 4 <= wb.size(); i += 4) {
          float f;
          memcpy(&f, wb.data() + i, 4);
          if (!std::isfinite(f)) {
            c.viol("repro:weight", what);
            break;
          }
        }
        c.digest(h);
        c.distinct(h);
      } else {
        c.viol("repro:no-weights", what);
      }
    }
  }
  c.stat("sentences", n);
  c.stat("epochs", one.losses.size());
}

// without updates, losses do not depend on the number of threads
void threadsCase(Ctx& c) {
  auto& r = c.rng;
  Watch w(c, "threads", 120);
  Env e;
  tr::TrainingArguments a;
  string what;
  int n = 0;
  if (!makeRun(c, e, &a, &what, &n)) return;
  a.trainingConfig.scw.C = 0;
  a.batchLossEpsilon = -1;
  a.numThreads = 1;
  auto one = trainRun(a, c.tmp("one.mdl"));
  a.numThreads = (u32)r.range(2, 6);
  auto many = trainRun(a, c.tmp("many.mdl"));
  if (one.ok != many.ok) c.viol("threads:status", one.error + " / " + many.error + "\n" + what);
  if (!one.ok) c.viol("threads:failed", one.error + "\n" + what);
  if (one.losses.size() != many.losses.size()) {
    c.viol("threads:epochs", what);
    return;
  }
  for (size_t i = 0; i < one.losses.size(); ++i)
    if (!(std::fabs(one.losses[i] - many.losses[i]) <= 1e-6 * (1 + std::fabs(one.losses[i]))))
      c.viol("threads:loss", Msg() << one.losses[i] << " " << many.losses[i] << "\n" << what);
  if (one.model != many.model) c.viol("threads:model", what);
  c.stat("sentences", n);
  c.stat("epochs", one.losses.size());
  c.distinct(what);
}

}  // namespace

int main(int argc, const char** argv) {
  return vh::run(argc, argv, {{"queueseq", queueSeqCase}, {"queue", queueCase}, {"executor", executorCase}, {"loss", lossCase}, {"repro", reproCase}, {"threads", threadsCase}});
}
