// Generated feature code against interpreted features for random
// specifications: the generator is run, its output is compiled, loaded and
// used for the same sentences as the interpreter.
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>

#include "core/codegen/feature_codegen.h"
#include "core/features_api.h"
#include "vcore.h"

using namespace vc;
using vh::Ctx;
using vh::Msg;

namespace {

std::string readFile(const std::string& p) {
  std::ifstream f(p);
  return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

std::string selfDir() {
  char b[4096];
  auto n = readlink("/proc/self/exe", b, sizeof b - 1);
  b[n > 0 ? n : 0] = 0;
  std::string s = b;
  return s.substr(0, s.rfind('/'));
}

bool makeEnv(Ctx& c, Env& env) {
  vs::GenOpts o;
  static const int sizes[] = {1, 3, 6, 12, 25, 40, 60};
  o.maxNgrams = c.rng.pick(sizes);
  env.w = vs::genWorld(c.rng, o);
  fixWorld(env.w);
  auto st = env.build(c.rng, vh::G().tmpDir);
  if (!st) {
    c.viol("world-build", msg(st) + "\n" + env.specText + "\n--- dic\n" + env.csv);
    return false;
  }
  env.setWeights(env.makeWeights(c.rng, 4 + (int)c.rng.below(11)));
  return true;
}

struct Lib {
  void* h = nullptr;
  std::unique_ptr<features::StaticFeatureFactory> f;
  std::string dir, so;
  ~Lib() {
    f.reset();
    for (auto n : {"/gen.h", "/gen.cc", "/wrap.cc", "/gen.log"}) unlink((dir + n).c_str());
    unlink(so.c_str());
  }
  bool make(Ctx& c, const Env& env) {
    dir = vh::G().tmpDir;
    // neither the file nor the class may be confused with one of another case
    std::string cls = Msg() << "Gen" << c.idx;
    so = dir + "/" + cls + ".so";
    {
      features::codegen::FeatureCodegenConfig conf;
      conf.filename = "gen";
      conf.className = cls;
      conf.baseDirectory = dir;
      features::codegen::StaticFeatureCodegen g{conf, env.spec};
      auto st = g.generateAndWrite();
      if (!st) {
        c.viol("generator", msg(st) + "\n" + env.specText);
        return false;
      }
    }
    {
      std::ofstream w(dir + "/wrap.cc");
      w << "#include \"gen.cc\"\n"
           "extern \"C\" void* verifMakeFeatures() { return static_cast<::jumanpp::core::features::"
           "StaticFeatureFactory*>(new jumanpp_generated::"
        << cls << "{}); }\n";
    }
    std::string cmd = readFile(selfDir() + "/../cxxcmd");
    if (cmd.empty()) {
      fprintf(stderr, "HARNESS-FAIL no compiler command\n");
      _exit(3);
    }
    cmd += " -O0 -g0 -fPIC -shared -I" + dir + " -o " + so + " " + dir + "/wrap.cc > " + dir + "/gen.log 2>&1";
    int rc = system(cmd.c_str());
    if (rc != 0) {
      c.viol("generated-code-does-not-compile",
             readFile(dir + "/gen.log").substr(0, 1500) + "\n" + env.specText);
      return false;
    }
    h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
      c.viol("generated-code-does-not-load", dlerror());
      return false;
    }
    auto fn = reinterpret_cast<void* (*)()>(dlsym(h, "verifMakeFeatures"));
    f.reset(static_cast<features::StaticFeatureFactory*>(fn()));
    return true;
  }
};

AnalyzerConfig randConf(vh::Rng& r, int* beam) {
  AnalyzerConfig a;
  *beam = 1 + (int)r.skewed(8);
  if (r.chance(60)) {
    a.globalBeamSize = 1 + (int)r.skewed(9);
    if (r.chance(60)) {
      a.rightGbeamCheck = 1 + (int)r.below(4);
      a.rightGbeamSize = 1 + (int)r.below(5);
    }
  }
  if (r.chance(15)) {
    a.autoBeamStep = 1 + (int)r.below(5);
    a.autoBeamBase = 1 + (int)r.below(4);
    a.autoBeamMax = a.autoBeamBase + (int)r.below(6);
  }
  a.storeAllPatterns = r.chance(30);
  return a;
}

// everything observable of a lattice
std::string dump(VAnalyzer* a, const HashedFeaturePerceptron&, u64* conns) {
  std::string s;
  auto l = a->lattice();
  for (u32 b = 0; b < l->createdBoundaryCount(); ++b) {
    auto bnd = l->boundary(b);
    auto st = bnd->starts();
    s += Msg() << "B" << b << " n=" << st->numEntries() << " e=" << bnd->ends()->nodePtrs().size() << "\n";
    if (st->numEntries() == 0) continue;
    auto beam = st->beamData();
    for (size_t i = 0; i < st->numEntries(); ++i) {
      if (b >= 2 && b + 1 < l->createdBoundaryCount()) {
        s += Msg() << " N" << st->nodeInfo().at(i).entryPtr().rawValue() << ":" << st->nodeInfo().at(i).end();
      }
      auto row = beam.row(i);
      for (auto& e : row) {
        if (EntryBeam::isFake(e)) break;
        ++*conns;
        s += Msg() << " (" << e.ptr.boundary << "," << e.ptr.left << "," << e.ptr.right << "," << e.ptr.beam
                   << ")=" << e.totalScore;
        if (b >= 2) {
          auto sc = l->boundary(e.ptr.boundary)->scores()->forPtr(e.ptr);
          s += Msg() << "/" << sc[0];
        }
      }
      s += "\n";
    }
  }
  return s;
}

std::string diffLine(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  auto cut = [&](const std::string& x) {
    size_t from = i > 200 ? i - 200 : 0;
    return x.substr(from, 400);
  };
  return "interpreted: …" + cut(a) + "\ngenerated: …" + cut(b);
}

void specsCase(Ctx& c) {
  Env env;
  if (!makeEnv(c, env)) return;
  Lib lib;
  if (!lib.make(c, env)) return;
  c.stat("specifications_compiled");
  CoreHolder gen(env.restored.spec, env.dic);
  auto st = gen.initialize(lib.f.get());
  if (!st) {
    c.viol("init-generated", msg(st));
    return;
  }
  if (!gen.features().patternStatic) {
    c.viol("generated-code-not-used", "generated code of the same specification was not accepted");
    return;
  }
  c.stat("ngrams", (u64)env.restored.spec.features.ngram.size());
  for (int k = 0; k < 8; ++k) {
    int beam;
    auto conf = randConf(c.rng, &beam);
    VAnalyzer a(env.core.get(), ScoringConfig{beam, 1}, conf);
    VAnalyzer g(&gen, ScoringConfig{beam, 1}, conf);
    if (!(st = a.initScorers(env.sdef)) || !(st = g.initScorers(env.sdef))) {
      c.viol("init-scorers", msg(st));
      return;
    }
    for (int i = 0; i < 12; ++i) {
      auto text = c.rng.chance(3) ? std::string() : vs::randSentence(c.rng, env.w, 10);
      if (text.size() > 4000) continue;
      auto s1 = a.run(text, &env.sdef);
      auto s2 = g.run(text, &env.sdef);
      if (bool(s1) != bool(s2)) {
        c.viol("status-differs", msg(s1) + " / " + msg(s2) + " text=" + text);
        return;
      }
      if (!s1) {
        c.stat("rejected");
        continue;
      }
      if (text.empty()) continue;
      u64 n1 = 0, n2 = 0;
      auto d1 = dump(&a, *env.perceptron, &n1);
      auto d2 = dump(&g, *env.perceptron, &n2);
      c.stat("sentences");
      c.stat("connections", n1);
      c.distinct(vh::hashStr(text, c.idx));
      if (d1 != d2) {
        c.viol("generated-differs",
               Msg() << "text=" << text << " beam=" << beam << " gbeam=" << conf.globalBeamSize << " rcheck="
                     << conf.rightGbeamCheck << "/" << conf.rightGbeamSize << " store=" << conf.storeAllPatterns
                     << "\n" << diffLine(d1, d2) << "\n" << env.specText);
        return;
      }
    }
  }
}

// a factory which only knows for which specification it was made
struct Marked : features::StaticFeatureFactory {
  u64 h;
  mutable bool used = false;
  explicit Marked(u64 h_) : h(h_) {}
  features::NgramFeatureApply* ngram() const override { used = true; return nullptr; }
  features::PartialNgramFeatureApply* ngramPartial() const override { used = true; return nullptr; }
  features::GeneratedPatternFeatureApply* pattern() const override { used = true; return nullptr; }
  u64 runtimeHash() const override { return h; }
};

// the hash a generated header carries
bool headerHash(Ctx& c, const spec::AnalysisSpec& s, u64* h) {
  features::codegen::FeatureCodegenConfig conf;
  conf.filename = "hash";
  conf.className = "H";
  conf.baseDirectory = vh::G().tmpDir;
  features::codegen::StaticFeatureCodegen g{conf, s};
  auto file = conf.baseDirectory + "/hash.h";
  auto st = g.writeHeader(file);
  if (!st) {
    c.viol("generator", msg(st));
    return false;
  }
  auto t = readFile(file);
  unlink(file.c_str());
  auto p = t.find("runtimeHash()");
  p = p == std::string::npos ? p : t.find("return ", p);
  if (p == std::string::npos) {
    c.viol("generator", "no specification hash in the header");
    return false;
  }
  *h = strtoull(t.c_str() + p + 7, nullptr, 10);
  return true;
}

// changes a number which the generated code contains
bool mutate(vh::Rng& r, spec::AnalysisSpec* s, std::string* what) {
  auto& f = s->features;
  switch (r.below(7)) {
    case 0: {
      if (f.ngram.empty()) return false;
      auto& n = f.ngram[r.below(f.ngram.size())];
      auto& x = n.references[r.below(n.references.size())];
      auto old = x;
      x = (i32)r.below(f.pattern.size() + 1);
      *what = "ngram reference";
      return x != old;
    }
    case 1: {
      auto& p = f.pattern[r.below(f.pattern.size())];
      if (p.references.empty()) return false;
      auto& x = p.references[r.below(p.references.size())];
      auto old = x;
      x = (i32)r.below(f.computation.size() + 1);
      *what = "pattern reference";
      return x != old;
    }
    case 2: {
      auto& p = f.primitive[r.below(f.primitive.size())];
      if (p.references.empty()) return false;
      auto& x = p.references[r.below(p.references.size())];
      auto old = x;
      x = (i32)r.below(20) - 5;
      *what = "primitive reference";
      return x != old;
    }
    case 3: {
      auto& p = f.primitive[r.below(f.primitive.size())];
      auto old = p.kind;
      p.kind = r.chance(50) ? spec::PrimitiveFeatureKind::Codepoint : spec::PrimitiveFeatureKind::Provided;
      *what = "primitive kind";
      return p.kind != old;
    }
    case 4: {
      if (f.ngram.size() < 2) return false;
      auto i = r.below(f.ngram.size() - 1);
      if (f.ngram[i].references == f.ngram[i + 1].references) return false;
      std::swap(f.ngram[i], f.ngram[i + 1]);
      *what = "ngram order";
      return true;
    }
    case 5: {
      auto& x = f.computation[r.below(f.computation.size())];
      auto& v = r.chance(50) ? x.trueBranch : x.falseBranch;
      if (v.empty() || r.chance(50)) v.push_back((i32)r.below(f.primitive.size()));
      else v.pop_back();
      *what = "branch of a computation";
      return true;
    }
    default: {
      if (f.ngram.size() < 2) return false;
      f.ngram.pop_back();
      *what = "removed ngram";
      return true;
    }
  }
}

void hashCase(Ctx& c) {
  Env env;
  if (!makeEnv(c, env)) return;
  u64 h;
  if (!headerHash(c, env.spec, &h)) return;
  auto usedBy = [&](const spec::AnalysisSpec& s, bool* used) {
    Marked m(h);
    CoreHolder ch(s, env.dic);
    auto st = ch.initialize(&m);
    *used = m.used;
    return st;
  };
  bool used;
  auto st = usedBy(env.restored.spec, &used);
  if (!st || !used) {
    c.viol("generated-code-not-used", "the specification restored from the model does not have the hash of the generated code");
    return;
  }
  for (int i = 0; i < 20; ++i) {
    auto s = env.restored.spec;
    std::string what;
    if (!mutate(c.rng, &s, &what)) continue;
    u64 h2;
    if (!headerHash(c, s, &h2)) return;
    c.stat("changed_specifications");
    c.distinct(vh::hashStr(what, h2));
    if (h2 == h) {
      c.viol("same-hash", "generated code of a different specification would be used: " + what);
      return;
    }
    Marked m(h2);
    CoreHolder ch(env.restored.spec, env.dic);
    st = ch.initialize(&m);
    if (m.used) {
      c.viol("foreign-code-used", "code with a different hash was used: " + what);
      return;
    }
  }
}

}  // namespace

int main(int argc, const char** argv) {
  std::map<std::string, vh::CaseFn> fns;
  fns["specs"] = specsCase;
  fns["hash"] = hashCase;
  return vh::run(argc, argv, fns);
}
