// C19: recurrent network language models. Scores of the paths of the final
// beam against an independent evaluation of the network; networks in model
// files; damaged networks.
#include <unistd.h>

#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>

#include "core/analysis/rnn_scorer_gbeam.h"
#include "core/env.h"
#include "core/impl/perceptron_io.h"
#include "rnn/mikolov_rnn.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif
#include "vcore.h"

using namespace vc;
using vh::Ctx;
using vh::Msg;
using vh::Rng;
using std::string;
using std::vector;
namespace mik = jumanpp::rnn::mikolov;
using RnnConf = jumanpp::core::analysis::rnn::RnnInferenceConfig;

namespace {

struct Net {
  u32 layer = 4;
  u32 order = 1;
  u64 maxent = 0;
  float nce = 9;
  u64 version = 6;
  bool useNce = true;
  char layerType[64] = "sigmoid";
  u32 layers = 1, arity = 2;
  vector<string> words;  // as in the file
  vector<float> emb, nceEmb, mat, me;
  std::map<vector<string>, int> ids;
  int unk = -1;
  string path;

  string bytes() const {
    string o;
    auto put = [&o](const void* p, size_t n) { o.append((const char*)p, n); };
    u64 sv = version * 10000 + layer;
    put(&sv, 8);
    put(&maxent, 8);
    put(&order, 4);
    put(&useNce, 1);
    put(&nce, 4);
    char rev = 0;
    put(&rev, 1);
    put(layerType, 64);
    put(&layers, 4);
    put(&arity, 4);
    for (auto v : {&emb, &nceEmb, &mat, &me}) put(v->data(), v->size() * 4);
    return o;
  }

  string dict(Rng& r) const {
    string o;
    for (size_t i = 0; i < words.size(); ++i) {
      o += words[i];
      if (r.chance(95)) o += " " + std::to_string(r.below(1000));
      if (i + 1 < words.size() || r.chance(80)) o += "\n";
    }
    return o;
  }

  void write(Rng& r, const string& nnet, const string& dic) {
    (void)r;
    unlink(path.c_str());
    unlink((path + ".nnet").c_str());
    std::ofstream(path, std::ios::binary) << dic;
    std::ofstream(path + ".nnet", std::ios::binary) << nnet;
  }

  // scores of the words of a sequence which starts after the first sentence
  // boundary
  vector<double> eval(const vector<int>& seq, double nceConst) const {
    vector<double> ctx(layer, 0), next(layer), res;
    auto feed = [&](int id) {
      for (u32 i = 0; i < layer; ++i) {
        double s = emb[(size_t)id * layer + i];
        for (u32 j = 0; j < layer; ++j) s += (double)mat[(size_t)i * layer + j] * ctx[j];
        next[i] = 1 / (1 + std::exp(-s));
      }
      ctx.swap(next);
    };
    feed(0);
    vector<int> hist(order, 0);  // the last word is the first
    u64 hashMax = maxent - words.size();
    for (int raw : seq) {
      int id = raw < 0 ? 0 : raw;
      double sc = -nceConst;
      for (u32 i = 0; i < layer; ++i) sc += (double)nceEmb[(size_t)id * layer + i] * ctx[i];
      for (u32 n = 0; n < order; ++n) {
        u64 x = mik::PRIMES[0] * mik::PRIMES[1];
        for (u32 j = 1; j <= n; ++j) {
          x += mik::PRIMES[(n * mik::PRIMES[j] + j) % mik::PRIMES_SIZE] * (u64)(i64)(hist[j - 1] + 1);
        }
        sc += me[(x % hashMax + (u64)(i64)raw) % hashMax];
      }
      res.push_back(sc);
      feed(id);
      hist.insert(hist.begin(), raw);
      hist.pop_back();
    }
    return res;
  }
};

struct Setup {
  Env env;
  Net net;
  RnnConf conf;
  vector<string> fields;
  vector<const dic::DictionaryField*> flds;
  vector<std::set<string>> strings;
};

bool plainWord(const string& s) {
  for (unsigned char ch : s) {
    if (ch == 0 || ch == ' ' || ch == '\n' || ch == '\r') return false;
  }
  return true;
}

// random network over the words of a world
bool makeNet(Ctx& c, Setup& s) {
  Rng& r = c.rng;
  auto& env = s.env;
  auto used = usedFields(env.w.spec);
  vector<string> cand;
  string trie;
  for (auto& f : env.w.spec.fields) {
    if (f.type != 'S' || !used.count(f.name)) continue;
    if (f.trie) trie = f.name;
    cand.push_back(f.name);
  }
  if (cand.empty()) return false;
  s.fields.clear();
  if (!trie.empty() && r.chance(85)) s.fields.push_back(trie);
  int more = (int)r.below(3);
  for (int i = 0; i < more || s.fields.empty(); ++i) {
    auto f = r.pick(cand);
    if (std::find(s.fields.begin(), s.fields.end(), f) == s.fields.end()) s.fields.push_back(f);
  }
  r.shuffle(s.fields);
  s.flds.clear();
  s.strings.clear();
  for (auto& f : s.fields) {
    auto fld = env.dic.fieldByName(f);
    if (fld == nullptr) {
      c.viol("field", f);
      return false;
    }
    s.flds.push_back(fld);
    s.strings.emplace_back();
    dic::impl::StringStorageTraversal t{fld->strings};
    StringPiece p;
    while (t.next(&p)) s.strings.back().insert(p.str());
  }

  auto& n = s.net;
  n = Net{};
  static const char seps[] = {'_', ',', '/', '|', '+', '\t'};
  char sep = r.pick(seps);
  string eos = r.chance(80) ? "</s>" : "<BOS>";
  string unk = r.chance(60) ? "<unk>" : r.chance(50) ? "未知" : "";
  n.words.push_back(eos);
  int unkAt = unk.empty() ? -1 : (int)r.below(4);
  auto add = [&](const vector<string>& t) {
    string w;
    for (auto& p : t) {
      if (!plainWord(p) || p.find(sep) != string::npos || p.empty()) return;
      if (&p != &t[0]) w += sep;
      w += p;
    }
    if (w == eos || w == unk || w.empty() || n.ids.count(t)) return;
    if (unkAt-- == 0) {
      n.unk = (int)n.words.size();
      n.words.push_back(unk);
    }
    n.ids[t] = (int)n.words.size();
    n.words.push_back(w);
  };
  auto& rows = env.w.dic.rows;
  int count = (int)r.range(0, 40);
  auto column = [&](const string& f) {
    for (size_t i = 0; i < env.w.spec.fields.size(); ++i)
      if (env.w.spec.fields[i].name == f) return env.w.spec.fields[i].col - 1;
    return 0;
  };
  for (int i = 0; i < count; ++i) {
    vector<string> t;
    auto& row = r.pick(rows);
    int kind = (int)r.below(10);
    auto sentence = vs::randSentence(r, env.w, 3);
    auto sent = makeSent(sentence);
    string piece = sentence;
    if (sent.n() > 0) {
      int a = (int)r.below(sent.n());
      piece = sent.sub(a, a + 1 + (int)r.below(std::min(3, sent.n() - a)));
    }
    for (size_t j = 0; j < s.fields.size(); ++j) {
      string v;
      int col = column(s.fields[j]);
      if (kind < 6) v = col < (int)row.size() ? row[col] : "x";
      else if (kind < 9) v = s.fields[j] == trie || r.chance(20) ? piece : (col < (int)row.size() ? row[col] : "x");
      else v = r.chance(30) ? "\"q" : vs::randWord(r, env.w.alphabet, 3);
      t.push_back(v);
    }
    add(t);
  }
  if (!unk.empty() && n.unk < 0) {
    n.unk = (int)n.words.size();
    n.words.push_back(unk);
  }

  n.layer = (u32)(r.chance(10) ? 1 : 1 + r.below(r.chance(50) ? 8 : 48));
  n.order = 1 + (u32)r.below(4);
  n.maxent = n.words.size() + 1 + r.skewed(12) * 7;
  n.nce = (float)r.range(-160, 160) / 16;
  auto fill = [&r](vector<float>& v, size_t size, float scale) {
    v.resize(size);
    for (auto& x : v) x = (float)r.range(-64, 64) / 64 * scale;
  };
  size_t voc = n.words.size();
  fill(n.emb, voc * n.layer, 2);
  fill(n.nceEmb, voc * n.layer, 2);
  fill(n.mat, (size_t)n.layer * n.layer, 4.f / std::sqrt((float)n.layer));
  fill(n.me, n.maxent, 3);
  n.path = vh::G().tmpDir + "/net";

  s.conf = RnnConf{};
  s.conf.rnnFields = s.fields;
  if (sep != '_' || r.chance(20)) s.conf.fieldSeparator = string(1, sep);
  if (eos != "</s>") s.conf.eosSymbol = eos;
  if (unk != "<unk>") s.conf.unkSymbol = unk;
  if (r.chance(40)) s.conf.nceBias = (float)r.range(-100, 100) / 8;
  if (r.chance(50)) s.conf.unkConstantTerm = (float)r.range(-100, 40) / 8;
  if (r.chance(50)) s.conf.unkLengthPenalty = (float)r.range(-40, 20) / 8;
  if (r.chance(50)) s.conf.perceptronWeight = (float)r.range(1, 32) / 16;
  if (r.chance(50)) s.conf.rnnWeight = (float)r.range(1, 32) / 16;
  return true;
}

int refId(Setup& s, VAnalyzer& an, u32 b, u32 right, bool* outside) {
  auto l = an.lattice();
  if (b == l->createdBoundaryCount() - 1) return 0;
  auto st = l->boundary(b)->starts();
  auto& info = st->nodeInfo().at(right);
  auto row = st->entryData().row(right);
  vector<string> t;
  bool dicWord = info.entryPtr().isDic();
  bool other = false;
  bool clash = false;
  *outside = false;
  for (size_t i = 0; i < s.flds.size(); ++i) {
    auto v = row.at((size_t)s.flds[i]->idxInEntry);
    StringPiece p;
    if (v >= 0) {
      s.flds[i]->strings.readAt(v, &p);
      t.push_back(p.str());
    } else {
      p = an.extraNodesContext()->node(info.entryPtr())->header.unk.surface;
      t.push_back(p.str());
      if (s.strings[i].count(t.back())) clash = true;
      else other = true;
    }
  }
  auto it = s.net.ids.find(t);
  if (it == s.net.ids.end()) return s.net.unk;
  if (dicWord) return it->second;
  // words which are not from the dictionary have the words of the network
  // which the dictionary could not have
  if (!other || clash) return s.net.unk;
  *outside = true;
  return it->second;
}

struct Expect {
  float nce, unkConst, unkLen, pw, rw;
};

Expect expectOf(const Net& n, const RnnConf& f) {
  Expect e;
  e.nce = f.nceBias.isDefault() ? n.nce : f.nceBias.value();
  e.unkConst = f.unkConstantTerm;
  e.unkLen = f.unkLengthPenalty;
  e.pw = f.perceptronWeight;
  e.rw = f.rnnWeight;
  return e;
}

struct PathNode {
  u16 b, right, left, beam;
};

struct Final {
  vector<vector<PathNode>> paths;  // of the last global beam, the EOS is last
  vector<double> perc;             // sums over paths
  string digest;                   // everything that is compared exactly
};

bool collect(Ctx& c, VAnalyzer& an, int scorers, Final* f) {
  auto l = an.lattice();
  u32 nb = l->createdBoundaryCount();
  auto eos = l->boundary(nb - 1);
  auto gbeam = eos->ends()->globalBeam();
  auto raw = reinterpret_cast<const BeamCandidate*>(l->lastGbeamRaw());
  if (gbeam.size() == 0) {
    c.viol("no-beam", "");
    return false;
  }
  for (size_t i = 0; i < gbeam.size(); ++i) {
    vector<PathNode> p;
    p.push_back({(u16)(nb - 1), 0, raw[i].left(), raw[i].beam()});
    for (const ConnectionPtr* x = &gbeam.at(i)->ptr; x->boundary > 1; x = x->previous) {
      p.push_back({x->boundary, x->right, x->left, x->beam});
      if (p.size() > nb + 1) {
        c.viol("path", "does not end");
        return false;
      }
    }
    std::reverse(p.begin(), p.end());
    double sum = 0;
    Msg o;
    for (auto& x : p) {
      auto sc = l->boundary(x.b)->scores()->nodeScores(x.right).beamLeft(x.beam, x.left);
      sum += sc.at(0);
      o << x.b << ":" << x.right << ":" << x.left << ":" << x.beam;
      for (int k = 0; k < scorers; ++k) {
        u32 bits;
        float v = sc.at(k);
        memcpy(&bits, &v, 4);
        o << " " << bits;
      }
      o << ",";
    }
    f->paths.push_back(p);
    f->perc.push_back(sum);
    f->digest += string(o) + "\n";
  }
  return true;
}

string beamDigest(VAnalyzer& an) {
  auto l = an.lattice();
  auto row = l->boundary(l->createdBoundaryCount() - 1)->starts()->beamData().row(0);
  Msg o;
  for (auto& e : row) {
    if (EntryBeam::isFake(e)) break;
    u32 bits;
    memcpy(&bits, &e.totalScore, 4);
    o << e.ptr.left << ":" << e.ptr.beam << "=" << bits << " ";
  }
  return o;
}

// the analysis has network scores
bool checkScores(Ctx& c, Setup& s, VAnalyzer& an, const Expect& e, int beamSize, const Final& plain, const string& where, Final* out) {
  auto l = an.lattice();
  u32 nb = l->createdBoundaryCount();
  Final f;
  if (!collect(c, an, 2, &f)) return false;
  if (f.paths.size() != plain.paths.size()) {
    c.viol("paths", Msg() << f.paths.size() << " instead of " << plain.paths.size() << " " << where);
    return false;
  }
  std::set<vector<int>> seqs;
  vector<double> totals;
  double scale = 1;
  for (size_t i = 0; i < f.paths.size(); ++i) {
    auto& p = f.paths[i];
    auto& q = plain.paths[i];
    bool same = p.size() == q.size() && std::fabs(f.perc[i] - plain.perc[i]) <= 1e-6 * (1 + std::fabs(plain.perc[i]));
    for (size_t j = 0; same && j < p.size(); ++j) same = memcmp(&p[j], &q[j], sizeof(PathNode)) == 0;
    if (!same) {
      c.viol("base-changed", Msg() << "path " << i << " of the last beam is other with the network: " << where);
      return false;
    }
    vector<int> ids;
    for (auto& x : p) {
      bool outside;
      ids.push_back(refId(s, an, x.b, x.right, &outside));
      if (outside) c.stat("words_outside_dictionary");
    }
    auto sc = s.net.eval(ids, e.nce);
    double total = 0;
    for (size_t j = 0; j < p.size(); ++j) {
      auto& x = p[j];
      auto cell = l->boundary(x.b)->scores()->nodeScores(x.right).beamLeft(x.beam, x.left);
      double want = sc[j];
      bool isEos = j + 1 == p.size();
      if (ids[j] == s.net.unk && !(isEos)) {
        auto& info = l->boundary(x.b)->starts()->nodeInfo().at(x.right);
        want = e.unkConst + (double)e.unkLen * info.numCodepoints();
        c.stat("penalties");
      } else {
        c.stat("network_scores");
      }
      double got = cell.at(1);
      if (!(std::fabs(got - want) <= 2e-3 * (1 + std::fabs(want)))) {
        Msg o;
        o << "word " << j << " of path " << i << " has " << got << ", the network gives " << want << "; ids";
        for (auto k : ids) o << " " << k;
        o << " unk=" << s.net.unk << " order=" << s.net.order << " layer=" << s.net.layer << " vocab=" << s.net.words.size() << " nce=" << e.nce << " " << where;
        c.viol(isEos ? "score:eos" : "score", o);
        return false;
      }
      total += (double)e.pw * cell.at(0) + (double)e.rw * got;
      scale = std::max(scale, std::fabs(total));
    }
    totals.push_back(total);
    seqs.insert(ids);
    c.stat("paths");
  }
  if (seqs.size() < f.paths.size()) c.stat("collapsed");
  // ranking
  auto raw = reinterpret_cast<const BeamCandidate*>(l->lastGbeamRaw());
  auto row = l->boundary(nb - 1)->starts()->beamData().row(0);
  std::set<size_t> in;
  size_t n = 0;
  double last = 0;
  double tol = 1e-4 * scale * (1 + nb / 16);
  for (; n < row.size(); ++n) {
    auto& x = row.at(n);
    if (EntryBeam::isFake(x)) break;
    size_t which = f.paths.size();
    for (size_t i = 0; i < f.paths.size(); ++i)
      if (raw[i].left() == x.ptr.left && raw[i].beam() == x.ptr.beam) which = i;
    if (which == f.paths.size() || !in.insert(which).second) {
      c.viol("rank:element", where);
      return false;
    }
    if (x.ptr.previous != &l->boundary(nb - 1)->ends()->globalBeam().at(which)->ptr) {
      c.viol("rank:previous", where);
      return false;
    }
    if (!(std::fabs(x.totalScore - totals[which]) <= tol)) {
      c.viol("rank:total", Msg() << x.totalScore << " instead of " << totals[which] << " weights " << e.pw << " " << e.rw << " " << where);
      return false;
    }
    if (n > 0 && x.totalScore > last) {
      c.viol("rank:order", Msg() << x.totalScore << " after " << last << " " << where);
      return false;
    }
    last = x.totalScore;
  }
  if (n != std::min<size_t>(f.paths.size(), beamSize)) {
    c.viol("rank:size", Msg() << n << " " << where);
    return false;
  }
  for (size_t i = 0; i < f.paths.size(); ++i) {
    if (!in.count(i) && totals[i] > last + tol) {
      c.viol("rank:lost", Msg() << totals[i] << " is better than " << last << " " << where);
      return false;
    }
  }
  if (in.size() < f.paths.size()) c.stat("cut_beams");
  size_t best = 0, bestPlain = 0;
  for (size_t i = 1; i < totals.size(); ++i) {
    if (totals[i] > totals[best]) best = i;
    if (plain.perc[i] > plain.perc[bestPlain]) bestPlain = i;
  }
  if (best != bestPlain) c.stat("reranked");
  f.digest += beamDigest(an);
  *out = f;
  return true;
}

bool makeWorld(Ctx& c, Setup& s) {
  vs::GenOpts o;
  o.maxRows = c.rng.chance(30) ? 60 : 20;
  s.env.w = vs::genWorld(c.rng, o);
  fixWorld(s.env.w);
  auto st = s.env.build(c.rng, vh::G().tmpDir);
  if (!st) {
    c.viol("world-build", msg(st));
    return false;
  }
  s.env.setWeights(s.env.makeWeights(c.rng, 6 + (int)c.rng.below(6)));
  return true;
}

struct Opened {
  JumanppEnv env;
  std::unique_ptr<VAnalyzer> an;

  Status open(const string& file, int beam, const AnalyzerConfig& a, const std::function<void(JumanppEnv&)>& f) {
    JPP_RETURN_IF_ERROR(env.loadModel(file));
    JPP_RETURN_IF_ERROR(env.initFeatures(nullptr));
    if (f) f(env);
    auto sc = env.scorers();
    an.reset(new VAnalyzer(env.coreHolder(), ScoringConfig{beam, sc->numScorers()}, a));
    return an->initScorers(*sc);
  }
};

Status saveModel(const string& path, const model::ModelInfo& info) {
  unlink(path.c_str());
  model::ModelSaver saver;
  JPP_RETURN_IF_ERROR(saver.open(path));
  return saver.save(info);
}

RnnConf randOverride(Rng& r) {
  RnnConf f;
  if (r.chance(30)) f.nceBias = (float)r.range(-100, 100) / 8;
  if (r.chance(30)) f.unkConstantTerm = (float)r.range(-100, 40) / 8;
  if (r.chance(30)) f.unkLengthPenalty = (float)r.range(-40, 20) / 8;
  if (r.chance(30)) f.perceptronWeight = (float)r.range(1, 32) / 16;
  if (r.chance(30)) f.rnnWeight = (float)r.range(1, 32) / 16;
  return f;
}

void scoreCase(Ctx& c) {
  Rng& r = c.rng;
  Setup s;
  if (!makeWorld(c, s)) return;
  auto& env = s.env;
  auto dir = vh::G().tmpDir;
  string all;
  for (int round = 0; round < 2; ++round) {
    if (!makeNet(c, s)) return;
    c.distinct(s.net.bytes());
    c.stat("networks");
    s.net.write(r, s.net.bytes(), s.net.dict(r));
    RnnScorerGbeamFactory fac;
    auto st = fac.make(s.net.path, env.dic, s.conf);
    if (!st) {
      c.viol("make", Msg() << msg(st) << " vocab=" << s.net.words.size() << " layer=" << s.net.layer);
      return;
    }
    int beam = 1 + (int)r.skewed(5);
    AnalyzerConfig a;
    a.globalBeamSize = 1 + (int)r.skewed(6);
    if (r.chance(40)) {
      a.rightGbeamCheck = 1 + (int)r.below(4);
      a.rightGbeamSize = 1 + (int)r.below(5);
    }
    auto where = string(Msg() << "beam=" << beam << " global=" << a.globalBeamSize << " right=" << a.rightGbeamCheck << "/" << a.rightGbeamSize);

    VAnalyzer plain(env.core.get(), ScoringConfig{beam, 1}, a);
    st = plain.initScorers(env.sdef);
    if (!st) return c.viol("init:plain", msg(st));
    ScorerDef sd = env.sdef;
    sd.others.push_back(&fac);
    sd.scoreWeights = {s.conf.perceptronWeight, s.conf.rnnWeight};
    VAnalyzer an(env.core.get(), ScoringConfig{beam, 2}, a);
    st = an.initScorers(sd);
    if (!st) return c.viol("init", msg(st));

    // models with the network
    util::serialization::Saver sv;
    PerceptronInfo pi;
    pi.modelSizeExponent = 0;
    while ((size_t)1 << pi.modelSizeExponent < env.weights.size()) ++pi.modelSizeExponent;
    sv.save(pi);
    auto permeta = sv.result().str();
    auto info = env.info;
    info.parts.emplace_back();
    info.parts.back().kind = model::ModelPartKind::Perceprton;
    info.parts.back().data.push_back(permeta);
    info.parts.back().data.push_back(StringPiece{reinterpret_cast<const char*>(env.weights.data()), env.weights.size() * sizeof(float)});
    auto bare = info;
    RnnScorerGbeamFactory old;
    Net oldNet = s.net;
    bool replaced = r.chance(25);
    if (replaced) {
      // a model which already has another network
      Net other = s.net;
      other.path += "-old";
      for (auto v : {&other.emb, &other.nceEmb, &other.mat, &other.me})
        for (auto& x : *v) x = (float)r.range(-64, 64) / 64;
      other.nce += 1;
      other.write(r, other.bytes(), other.dict(r));
      st = old.make(other.path, env.dic, s.conf);
      if (!st) return c.viol("make", msg(st));
      st = old.makeInfo(&info, "old");
      if (!st) return c.viol("make-info", msg(st));
    }
    st = fac.makeInfo(&info, "net");
    if (!st) return c.viol("make-info", msg(st));
    auto file = dir + "/rnn.jppmdl", bareFile = dir + "/bare.jppmdl";
    st = saveModel(file, info);
    if (!st) return c.viol("save", msg(st));
    st = saveModel(bareFile, bare);
    if (!st) return c.viol("save", msg(st));
    Opened saved, given, changed;
    st = saved.open(file, beam, a, nullptr);
    if (!st) return c.viol("load", Msg() << msg(st) << " vocab=" << s.net.words.size() << " layer=" << s.net.layer << " replaced=" << replaced);
    bool over = r.chance(50);  // the model has a network but another is given
    st = given.open(over ? file : bareFile, beam, a, [&](JumanppEnv& e) { e.setRnnHolder(&fac); });
    if (!st) return c.viol("load:given", msg(st));
    RnnConf ov = randOverride(r);
    bool off = r.chance(10);
    if (off) ov.rnnWeight = 0.f;
    st = changed.open(file, beam, a, [&](JumanppEnv& e) { e.setRnnConfig(ov); });
    if (!st) return c.viol("load:changed", msg(st));
    RnnConf merged = s.conf;
    merged.mergeWith(ov);

    for (int i = 0; i < 8; ++i) {
      auto text = vs::randSentence(r, env.w, r.chance(10) ? 40 : 10);
      if (r.chance(2)) text = "";
      if (text.size() > 4000) continue;
      auto w = where + " text=" + text;
      c.sample(text);
      st = plain.run(text, &env.sdef);
      auto st2 = an.run(text, &sd);
      if (!st || !st2) {
        if (st.isOk() != st2.isOk()) c.viol("run", Msg() << msg(st) << " / " << msg(st2) << " " << w);
        continue;
      }
      auto stS = saved.an->run(text, saved.env.scorers());
      auto stG = given.an->run(text, given.env.scorers());
      auto stC = changed.an->run(text, changed.env.scorers());
      if (!stS || !stG || !stC) {
        c.viol("run", Msg() << msg(stS) << " / " << msg(stG) << " / " << msg(stC) << " " << w);
        continue;
      }
      if (plain.lattice()->createdBoundaryCount() <= 3) continue;
      c.stat("sentences");
      Final p, f, fs, fg, fc;
      if (!collect(c, plain, 1, &p)) return;
      if (!checkScores(c, s, an, expectOf(s.net, s.conf), beam, p, w, &f)) return;
      if (!checkScores(c, s, *saved.an, expectOf(s.net, s.conf), beam, p, w + " [loaded model]", &fs)) return;
      if (fs.digest != f.digest) return c.viol("loaded-differs", w);
      if (!checkScores(c, s, *given.an, expectOf(s.net, s.conf), beam, p, w + " [network given]", &fg)) return;
      if (fg.digest != f.digest) return c.viol("given-differs", w);
      if (off) {
        if (!collect(c, *changed.an, 1, &fc)) return;
        if (fc.digest + beamDigest(*changed.an) != p.digest + beamDigest(plain)) return c.viol("off", w);
        c.stat("switched_off");
      } else if (!checkScores(c, s, *changed.an, expectOf(s.net, merged), beam, p, w + " [loaded model, changed settings]", &fc)) {
        return;
      }
      all += f.digest;
    }
  }
  c.digest(all);
}

// ------------------------------------------------------------- damage

struct Aligned {
  char* base = nullptr;
  size_t size = 0;
  explicit Aligned(const string& s) : size(s.size()) {
    // ends exactly at the end of an allocation
    size_t n = (s.size() + 63) / 64 * 64;
    if (posix_memalign((void**)&base, 64, n ? n : 64)) abort();
    memcpy(base, s.data(), s.size());
#ifdef VERIF_ASAN
    __asan_poison_memory_region(base + s.size(), (n ? n : 64) - s.size());
#endif
  }
  ~Aligned() {
#ifdef VERIF_ASAN
    __asan_unpoison_memory_region(base, (size + 63) / 64 * 64);
#endif
    free(base);
  }
  StringPiece piece() const { return StringPiece{base, size}; }
};

void damageCase(Ctx& c) {
  Rng& r = c.rng;
  Setup s;
  if (!makeWorld(c, s)) return;
  auto& env = s.env;
  auto sentences = vs::randSentence(r, env.w, 8);
  string all;
  for (int round = 0; round < 6; ++round) {
    if (!makeNet(c, s)) return;
    auto good = s.net.bytes();
    auto dict = s.net.dict(r);
    // the network itself is fine
    s.net.write(r, good, dict);
    RnnScorerGbeamFactory fac;
    auto st = fac.make(s.net.path, env.dic, s.conf);
    if (!st) return c.viol("make", msg(st));

    auto expectFail = [&](const string& what, const Net& n, const string& nnet, const string& dic, const RnnConf& conf) {
      Net w = n;
      w.path = s.net.path + "-bad";
      w.write(r, nnet, dic);
      RnnScorerGbeamFactory f;
      auto st = f.make(w.path, env.dic, conf);
      c.stat("damaged:" + what);
      all += what + (st ? "+" : "-");
      if (st) c.viol("accepted:" + what, Msg() << "vocab=" << n.words.size() << " layer=" << n.layer << " order=" << n.order << " maxent=" << n.maxent);
    };
    for (int k = 0; k < 4; ++k) {
      Net n = s.net;
      RnnConf conf = s.conf;
      switch (r.below(16)) {
        case 0:
          expectFail("truncated", n, good.substr(0, r.chance(30) ? r.below(100) : r.below(good.size())), dict, conf);
          break;
        case 1:
          expectFail("extended", n, good + string(1 + r.below(20), (char)r.below(256)), dict, conf);
          break;
        case 2:
          n.version = r.chance(50) ? 5 : 7 + r.below(5);
          expectFail("version", n, n.bytes(), dict, conf);
          break;
        case 3:
          n.useNce = false;
          expectFail("nce", n, n.bytes(), dict, conf);
          break;
        case 4:
          if (r.chance(50)) strcpy(n.layerType, "tanh");
          else if (r.chance(50)) memset(n.layerType, 's', 64);
          else n.layerType[r.below(7)] ^= (char)(1 + r.below(127));
          expectFail("activation", n, n.bytes(), dict, conf);
          break;
        case 5:
          n.order = r.chance(40) ? 0 : r.chance(50) ? 5 : (u32)r.range(5, 100000);
          expectFail("order", n, n.bytes(), dict, conf);
          break;
        case 6: {
          n.maxent = r.below(n.words.size() + 1);
          n.me.resize(n.maxent);
          expectFail("maxent-size", n, n.bytes(), dict, conf);
          break;
        }
        case 7: {
          if (r.chance(50)) {
            auto x = n.layer;
            while (x == n.layer) x = (u32)r.below(r.chance(50) ? 60 : 10000);
            n.layer = x;
          } else {
            auto x = n.maxent;
            static const u64 big[] = {~0ull, 1ull << 62, 1ull << 63, 1ull << 40, 1ull << 60};
            while (x == n.maxent) x = r.chance(40) ? r.pick(big) : r.chance(50) ? r.next() : r.below(1000);
            n.maxent = x;
          }
          expectFail("sizes", n, n.bytes(), dict, conf);
          break;
        }
        case 8: {
          auto w = n.words;
          if (r.chance(50) && w.size() > 1) w.erase(w.begin() + 1 + r.below(w.size() - 1));
          else w.push_back("w");
          auto x = n;
          x.words = w;
          expectFail("word-count", n, good, x.dict(r), conf);
          break;
        }
        case 9: {
          n.words[0] = "xx";
          conf.eosSymbol = string("</none>");
          expectFail("no-eos", n, good, n.dict(r), conf);
          break;
        }
        case 10:
          if (n.words.size() < 2) break;
          std::swap(n.words[0], n.words[1 + r.below(n.words.size() - 1)]);
          expectFail("eos-not-first", n, good, n.dict(r), conf);
          break;
        case 11:
          conf.unkSymbol = string("<nothing>");
          expectFail("no-unk", n, good, dict, conf);
          break;
        case 12: {
          if (n.words.size() < 3) break;
          size_t i = 1 + r.below(n.words.size() - 1);
          if ((int)i == n.unk) break;
          n.words[i] += conf.fieldSeparator.value() + "z";
          expectFail("field-count", n, good, n.dict(r), conf);
          break;
        }
        case 13: {
          auto f = s.fields;
          f[r.below(f.size())] = "nosuchfield";
          conf.rnnFields = f;
          expectFail("field-name", n, good, dict, conf);
          break;
        }
        case 14: {
          vector<string> bad;
          auto used = usedFields(env.w.spec);
          for (auto& f : env.w.spec.fields)
            if (f.type != 'S' || !used.count(f.name)) bad.push_back(f.name);
          if (bad.empty()) break;
          auto f = s.fields;
          auto b = r.pick(bad);
          f[r.below(f.size())] = b;
          conf.rnnFields = f;
          expectFail(used.count(b) ? "field-type" : "field-unused", n, good, dict, conf);
          break;
        }
        default:
          conf.fieldSeparator = r.chance(50) ? string("") : string("__");
          expectFail("separator", n, good, dict, conf);
      }
    }

    // header readers get any piece of memory
    {
      size_t n = std::min<size_t>(r.below(120), good.size());
      std::unique_ptr<char[]> buf(new char[n]);
      memcpy(buf.get(), good.data(), n);
      mik::MikolovRnnModelHeader h;
      size_t off = 0;
      auto st = mik::readHeader(StringPiece{buf.get(), n}, &h, &off);
      if (st.isOk() != (n >= 98)) c.viol("accepted:header", Msg() << n << " bytes: " << msg(st));
      if (st && off != 98) c.viol("header:offset", Msg() << off);
      c.stat("headers");
    }

    // networks in models
    model::ModelInfo info;
    st = fac.makeInfo(&info, "x");
    if (!st) return c.viol("make-info", msg(st));
    auto& part = info.parts.back();
    int kind = (int)r.below(3);
    vector<std::unique_ptr<Aligned>> bufs;
    size_t victim = 3 + r.below(4);
    size_t cut = 0;
    if (kind == 1) {
      auto sz = part.data[victim].size();
      cut = r.chance(50) ? r.below(sz) : sz - std::min<size_t>(sz, 4 * (1 + r.below(4)));
    }
    model::ModelInfo dam;
    dam.parts.emplace_back();
    auto& dp = dam.parts.back();
    dp.kind = model::ModelPartKind::Rnn;
    size_t keep = kind == 2 ? r.below(part.data.size()) : part.data.size();
    for (size_t i = 0; i < keep; ++i) {
      auto d = part.data[i].str();
      if (kind == 1 && i == victim) d.resize(cut);
      bufs.emplace_back(new Aligned(d));
      dp.data.push_back(bufs.back()->piece());
    }
    RnnScorerGbeamFactory lf;
    st = lf.load(dam);
    static const char* const names[] = {"whole", "part-cut", "parts-lost"};
    c.stat(Msg() << "model:" << names[kind]);
    if (kind == 0 && !st) c.viol("load", msg(st));
    if (kind != 0 && st) c.viol(Msg() << "accepted:model:" << names[kind], Msg() << "block " << victim << " has " << cut << " bytes of " << part.data[victim].size() << " vocab=" << s.net.words.size() << " layer=" << s.net.layer << " kept " << keep);
    all += string(Msg() << kind << st.isOk());
  }
  c.digest(all);
}

}  // namespace

int main(int argc, const char** argv) { return vh::run(argc, argv, {{"score", scoreCase}, {"damage", damageCase}}); }
