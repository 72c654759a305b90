// The same sentence has to give the same result whatever happened before
// (history), in whatever thread (threads) and with whatever implementation of
// the features (statics).
#include <atomic>
#include <chrono>
#include <thread>

#include "jumandic/shared/lattice_format.h"
#include "jumandic/shared/morph_format.h"
#include "vbench.h"

#include <google/protobuf/io/coded_stream.h>
#include "lattice_dump.pb.h"

using namespace vj;

namespace {

std::string firstLine(const std::string& s) { return s.substr(0, s.find('\n')); }

struct Result {
  bool ok = false;
  std::string text;
  bool operator==(const Result& o) const { return ok == o.ok && text == o.text; }
  std::string show() const { return (ok ? "" : "ERROR ") + text; }
};

Result run(Exec& e, const std::string& text, const std::string& comment) {
  Result r;
  ExactBuffer b(text);
  auto s = e.analyze(b.piece(), comment);
  r.ok = bool(s);
  r.text = r.ok ? str(e.output()) : firstLine(vj::str(s.message()));
  return r;
}

std::string historyText(Rng& r, const World& w) {
  int k = (int)r.below(100);
  if (k < 55) return randSentence(r, w, 8);
  if (k < 65) return randSentence(r, w, 40);
  if (k < 72) return "";
  if (k < 82) {
    auto s = randSentence(r, w, 3);
    return s.substr(0, r.below(s.size() + 1)) + r.pick((const char* const[]){"\xff", "\xe3", "\xc0\x80", ""});
  }
  if (k < 85) return std::string(4097 + r.below(50), 'a');
  if (k < 90) return randSentence(r, w, 1);
  std::string s = hostileText(r, w);
  return s.size() > 400 ? s.substr(0, 300) : s;
}

bool usable(OutputType t, const jumandic::JumanppConf& c) {
#ifdef JPP_ENABLE_DEV_TOOLS
  if (t == OutputType::GlobalBeamPos) return c.globalBeam.value() > 0 && !c.autoStep.defined();
#endif
  return true;
}

void historyCase(Ctx& c) {
  Bench b(c, 60);
  if (!b.build()) return;
  auto conf = makeConf(c.rng, b.model);
  if (!b.open(conf)) return;
  std::vector<std::string> texts;
  int n = 4 + (int)c.rng.below(5);
  for (int i = 0; i < n; ++i) texts.push_back(historyText(c.rng, b.w));
  std::vector<OutputType> types;
  for (auto t : allTypes())
    if (usable(t, conf)) types.push_back(t);
  std::string digest, log;
  int blocks = 6 + (int)c.rng.below(4);
  for (int k = 0; k < blocks; ++k) {
    auto ty = c.rng.pick(types);
    if (ty == OutputType::FullLatticeDump && c.rng.chance(50)) ty = OutputType::Lattice;
    auto s = b.ex->setOutput(ty);
    if (!s) {
      c.viol("init-output", msg(s));
      return;
    }
    int m = 1 + (int)c.rng.below(5);
    for (int i = 0; i < m; ++i) {
      auto& text = c.rng.pick(texts);
      if (ty == OutputType::FullLatticeDump && text.size() > 90) continue;
      std::string comment = c.rng.chance(30) ? "c" + std::to_string(i) : "";
      auto got = run(*b.ex, text, comment);
      auto fconf = conf;
      fconf.outputType = ty;
      auto fresh = b.make(fconf);
      if (!fresh) return;
      auto want = run(*fresh, text, comment);
      log += Msg() << "\n[" << (int)ty << "] (" << comment << ") " << text;
      if (!(got == want)) {
        c.viol("depends-on-history", "--- used analyzer\n" + got.show() + "\n--- fresh analyzer\n" + want.show() + "\n" + b.where + "\n--- history (format, comment, sentence)" + log + "\n--- dic\n" + b.w.csv);
        return;
      }
      // again without anything in between
      if (c.rng.chance(25)) {
        auto again = run(*b.ex, text, comment);
        if (!(again == got)) {
          c.viol("depends-on-repetition", "--- first\n" + got.show() + "\n--- second\n" + again.show() + "\n" + b.where + log + "\n--- dic\n" + b.w.csv);
          return;
        }
      }
      digest += got.show() + "\x01";
      c.stat(got.ok ? "analysed" : "rejected");
      c.distinct(text + b.where + std::to_string((int)ty));
    }
  }
  c.digest(digest);
  c.sample(b.where + log);
}

// the same results for the same input, with a known content of fresh memory
void contentsCase(Ctx& c) {
  Bench b(c, 60);
  if (!b.build()) return;
  auto conf = makeConf(c.rng, b.model);
  if (!b.open(conf)) return;
  std::string digest;
  for (int k = 0; k < 4; ++k) {
    std::string text = historyText(c.rng, b.w);
    bool first = true;
    for (auto ty : allTypes()) {
      if (!usable(ty, conf)) continue;
      if (ty == OutputType::FullLatticeDump && (text.size() > 60 || k != 1)) continue;
      auto s = b.ex->setOutput(ty);
      if (!s) {
        c.viol("init-output", msg(s));
        return;
      }
      Result r;
      if (first || ty == OutputType::FullLatticeDump) {
        r = run(*b.ex, text, "x");
      } else {
        s = b.ex->format()->format(*b.ex->analyzerPtr(), "x");
        r.ok = bool(s);
        if (s) r.text = str(b.ex->output());
      }
      first = false;
      digest += r.show() + "\x01";
      c.stat(r.ok ? "outputs" : "rejected");
      if (!r.ok) break;
    }
    c.distinct(text + b.where);
  }
  c.digest(digest);
}

#ifdef VERIF_ASAN
void growthCase(Ctx& c) {
  Bench b(c, 50);
  if (!b.build()) return;
  auto conf = makeConf(c.rng, b.model);
  if (!b.open(conf)) return;
  std::vector<std::string> texts;
  for (int i = 0; i < 6; ++i) {
    texts.push_back(historyText(c.rng, b.w));
    if (texts.back().size() > 150 && texts.back().size() < 4096) texts.back() = randSentence(c.rng, b.w, 8);
  }
  std::vector<OutputType> types;
  for (auto t : allTypes())
    if (usable(t, conf) && (t != OutputType::FullLatticeDump || c.rng.chance(30))) types.push_back(t);
  auto round = [&] {
    for (auto ty : types) {
      auto s = b.ex->setOutput(ty);
      for (auto& t : texts) {
        if (ty == OutputType::FullLatticeDump && t.size() > 60) continue;
        ExactBuffer buf(t);
        auto st = b.ex->analyze(buf.piece(), "c");
        c.stat(st ? "analysed" : "rejected");
      }
    }
    (void)b.ex->setOutput(OutputType::Juman);
    ExactBuffer buf(texts[0]);
    (void)b.ex->analyze(buf.piece(), "c");
  };
  round();
  round();
  size_t at2 = __sanitizer_get_current_allocated_bytes();
  int more = 6;
  for (int i = 0; i < more; ++i) round();
  size_t at8 = __sanitizer_get_current_allocated_bytes();
  if (at8 > at2 + 16 * 1024)
    c.viol("memory-growth", Msg() << at2 << " bytes after two rounds, " << at8 << " after " << more << " more\n" << b.where);
  c.stat("rounds", more + 2);
  c.distinct(b.where + texts[0] + texts[1]);
}
#endif

// ------------------------------------------------------------------ threads

void threadsCase(Ctx& c) {
  Bench b(c, 60);
  if (!b.build()) return;
  auto conf = makeConf(c.rng, b.model);
  if (conf.beamOutput.value() < 1) conf.beamOutput = 2;
  b.where = confText(conf);
  b.ex = b.make(conf, c.rng.chance(30));
  if (!b.ex) return;
  auto& ex = *b.ex;
  int nt = 2 + (int)c.rng.below(5);
  std::vector<std::string> texts;
  for (int i = 0; i < 10; ++i) {
    texts.push_back(historyText(c.rng, b.w));
    if (texts.back().size() > 120) texts.back().resize(0), texts.back() = randSentence(c.rng, b.w, 6);
  }
  struct Worker {
    Rng rng;
    std::vector<std::pair<int, std::string>> got;
    std::string error;
  };
  int topn = conf.beamOutput.value();
  auto analyzeAll = [&](Worker& w, const std::vector<int>& order) {
    core::analysis::Analyzer an;
    auto s = ex.initAnalyzer(&an);
    if (!s) {
      w.error = msg(s);
      return;
    }
    jumandic::output::LatticeFormat lf{topn};
    jumandic::output::MorphFormat mf{true};
    s = lf.initialize(an.output());
    if (s) s = mf.initialize(an.output());
    if (!s) {
      w.error = msg(s);
      return;
    }
    for (int i : order) {
      if (w.rng.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(w.rng.below(300)));
      std::string res;
      auto st = an.analyze(texts[i]);
      if (st) st = lf.format(an, "c");
      if (st) {
        res = str(lf.result());
        st = mf.format(an, "");
      }
      if (st) res += str(mf.result());
      else res = "ERROR " + firstLine(str(st.message()));
      w.got.emplace_back(i, res);
    }
  };
  std::vector<Worker> ws(nt);
  std::vector<std::vector<int>> orders(nt);
  for (int t = 0; t < nt; ++t) {
    ws[t].rng = Rng(c.rng.next());
    for (int k = 0; k < 12; ++k) orders[t].push_back((int)c.rng.below(texts.size()));
  }
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      // all start at once
      ready.fetch_add(1);
      while (ready.load() < nt) std::this_thread::yield();
      analyzeAll(ws[t], orders[t]);
      if (ws[t].rng.chance(50)) analyzeAll(ws[t], orders[t]);
    });
  for (auto& t : th) t.join();
  // alone
  Worker ref;
  ref.rng = Rng(1);
  std::vector<int> all;
  for (size_t i = 0; i < texts.size(); ++i) all.push_back((int)i);
  analyzeAll(ref, all);
  if (!ref.error.empty()) {
    c.viol("analyzer", ref.error);
    return;
  }
  for (int t = 0; t < nt; ++t) {
    if (!ws[t].error.empty()) c.viol("analyzer", ws[t].error);
    for (auto& g : ws[t].got) {
      auto& want = ref.got[g.first].second;
      if (g.second != want) {
        c.viol("depends-on-threads", "--- in a thread\n" + g.second + "\n--- alone\n" + want + "\n" + b.where + "\n[" + texts[g.first] + "]\n" + b.w.csv);
        return;
      }
      c.stat("concurrent_results");
    }
    std::string order;
    for (int i : orders[t]) order += std::to_string(i) + ",";
    c.distinct(b.where + order);
  }
  c.stat("threads", nt);
}

// ------------------------------------------------------------------ statics

std::vector<std::string> dumpLines(const std::string& s) {
  google::protobuf::io::CodedInputStream in((const uint8_t*)s.data(), (int)s.size());
  uint32_t n = 0;
  LatticeDump d;
  std::vector<std::string> v;
  if (!in.ReadVarint32(&n) || !d.ParseFromCodedStream(&in)) return v;
  std::istringstream is(d.DebugString());
  for (std::string l; std::getline(is, l);) v.push_back(l);
  return v;
}

// where two dumps start to differ
std::string firstDifference(const std::string& a, const std::string& b) {
  auto x = dumpLines(a), y = dumpLines(b);
  std::string o;
  for (size_t i = 0; i < x.size() || i < y.size(); ++i) {
    std::string l = i < x.size() ? x[i] : "(end)";
    std::string m = i < y.size() ? y[i] : "(end)";
    if (l == m) continue;
    for (size_t k = i > 12 ? i - 12 : 0; k < i; ++k) o += x[k] + "\n";
    o += "< " + l + "\n> " + m + "\n";
    break;
  }
  return o;
}

void staticsCase(Ctx& c) {
  Bench b(c, 90);
  if (!b.build()) return;
  auto conf = makeConf(c.rng, b.model);
  b.where = confText(conf);
  auto st = b.make(conf), in = b.make(conf, true);
  if (!st || !in) return;
  if (!st->core().features().patternStatic || in->core().features().patternStatic) {
    c.viol("static-not-used", b.where);
    return;
  }
  std::vector<OutputType> types;
  for (auto t : allTypes())
    if (usable(t, conf)) types.push_back(t);
  for (int i = 0; i < 6; ++i) {
    std::string text = c.rng.chance(80) ? randSentence(c.rng, b.w, 8) : historyText(c.rng, b.w);
    int nf = 1 + (int)c.rng.below(3);
    for (int k = 0; k < nf; ++k) {
      auto ty = k == 0 && text.size() < 60 ? OutputType::FullLatticeDump : c.rng.pick(types);
      if (ty == OutputType::FullLatticeDump && text.size() >= 60) ty = OutputType::Lattice;
      if (!st->setOutput(ty) || !in->setOutput(ty)) {
        c.viol("init-output", b.where);
        return;
      }
      auto x = run(*st, text, "c"), y = run(*in, text, "c");
      if (!(x == y)) {
        if (ty == OutputType::FullLatticeDump) {
          c.viol("static-differs", firstDifference(x.text, y.text) + b.where + "\n[" + text + "]\n--- dic\n" + b.w.csv);
          return;
        }
        c.viol("static-differs", Msg() << "format " << (int)ty << "\n--- generated code\n" << x.show() << "\n--- interpreted\n" << y.show() << "\n" << b.where << "\n[" << text << "]\n--- dic\n" << b.w.csv);
        return;
      }
      c.stat(x.ok ? "compared" : "rejected");
      c.distinct(text + b.where);
    }
  }
  c.sample(b.where);
}

}  // namespace

int main(int argc, const char** argv) {
  return vh::run(argc, argv,
                 {{"history", historyCase},
                  {"contents", contentsCase},
#ifdef VERIF_ASAN
                  {"growth", growthCase},
#endif
                  {"threads", threadsCase},
                  {"statics", staticsCase}});
}
