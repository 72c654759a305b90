// Runs an abstract world (vspec.h) through the library and holds the
// reference model of the analysis: candidates, features, scores.
#ifndef VERIF_VCORE_H
#define VERIF_VCORE_H

#include <memory>
#include <tuple>

#include "core/analysis/analysis_result.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/perceptron.h"
#include "core/core.h"
#include "core/dic/dic_builder.h"
#include "core/dic/dictionary.h"
#include "core/env.h"
#include "core/impl/model_io.h"
#include "core/spec/spec_dsl.h"
#include "core/spec/spec_parser.h"
#include "core/spec/spec_types.h"
#include "util/characters.h"
#include "vh.h"
#include "vspec.h"
#include "vtext.h"

namespace vc {

using namespace jumanpp;
using namespace jumanpp::core;
using namespace jumanpp::core::analysis;
using vs::Strs;

inline std::string str(StringPiece p) { return std::string(p.char_begin(), p.size()); }

inline std::string msg(const Status& s) {
  std::ostringstream o;
  o << s;
  return o.str();
}

// ------------------------------------------------------------- reference: spec

// fields that take part in the analysis (are stored as features)
inline std::set<std::string> usedFields(const vs::Spec& s) {
  std::set<std::string> u;
  auto add = [&](const std::string& n) {
    auto f = s.field(n);
    if (f && (f->type == 'S' || f->type == 'I')) u.insert(n);
  };
  for (auto& n : s.ngrams)
    for (auto& t : n.t)
      for (auto& a : t) add(a);
  for (auto& k : s.unks)
    for (auto& a : k.surfTo) add(a);
  for (auto& f : s.features) {
    if (!f.field.empty()) add(f.field);
    for (auto& a : f.mfields) add(a);
    for (auto& a : f.thenF) add(a);
    for (auto& a : f.elseF) add(a);
  }
  return u;
}

inline std::vector<std::string> splitBy(const std::string& s, const std::string& sep) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find(sep, i);
    if (j == std::string::npos) {
      r.push_back(s.substr(i));
      break;
    }
    r.push_back(s.substr(i, j - i));
    i = j + sep.size();
  }
  return r;
}

inline std::string canonInt(const std::string& v) {
  if (v.empty()) return "0";
  return std::to_string((int32_t)strtol(v.c_str(), nullptr, 10));
}

inline std::string joinSorted(Strs v) {
  std::sort(v.begin(), v.end());
  std::string o = "{";
  for (auto& x : v) o += x + "\x01";
  return o + "}";
}

// value of a dictionary cell as a user sees it
inline std::string canonCell(const vs::Field& f, const std::string& v) {
  switch (f.type) {
    case 'I': return canonInt(v);
    case 'S': return v == f.empty ? "" : v;
    case 'L':
      if (v == f.empty || v.empty()) return joinSorted({});
      return joinSorted(splitBy(v, f.lsep));
    default: {
      if (v == f.empty || v.empty()) return joinSorted({});
      Strs items;
      for (auto& e : splitBy(v, f.lsep)) {
        size_t k = e.find(f.kvsep);
        if (k == std::string::npos) items.push_back(e + "\x02-");
        else items.push_back(e.substr(0, k) + "\x02=" + e.substr(k + f.kvsep.size()));
      }
      return joinSorted(items);
    }
  }
}

// ------------------------------------------------------------- building

struct BuildOpts {
  int route = 0;  // 0 text, 1 DSL
  std::string dir;
};

inline Status buildSpecDsl(const vs::Spec& s, spec::AnalysisSpec* out) {
  namespace d = core::spec::dsl;
  static std::deque<std::string> keep;  // the builder refers to the strings
  auto S = [&](const std::string& x) -> StringPiece {
    keep.push_back(x);
    return StringPiece(keep.back());
  };
  d::ModelSpecBuilder b;
  std::map<std::string, d::FieldBuilder*> fb;
  std::map<std::string, d::FeatureBuilder*> ftb;
  for (auto& f : s.fields) {
    auto& x = b.field(f.col, S(f.name));
    fb[f.name] = &x;
    switch (f.type) {
      case 'S': x.strings(); break;
      case 'I': x.integers(); break;
      case 'L': x.stringLists(); break;
      default: x.kvLists();
    }
    if (f.trie) x.trieIndex();
    if (f.hasEmpty) x.emptyValue(S(f.empty));
    if (f.align) x.align(f.align);
    if (f.lsep != " ") x.listSeparator(S(f.lsep));
    if (f.kvsep != ":") x.kvSeparator(S(f.kvsep));
  }
  for (auto& f : s.fields)
    if (!f.storage.empty()) fb[f.name]->stringStorage(*fb[f.storage]);
  for (auto& f : s.features) {
    auto& x = b.feature(S(f.name));
    ftb[f.name] = &x;
    switch (f.kind) {
      case vs::Placeholder: x.placeholder(); break;
      case vs::NumBytes: x.length(*fb[f.field]); break;
      case vs::NumCps: x.numCodepoints(*fb[f.field]); break;
      case vs::Cp: x.codepoint(f.off); break;
      case vs::CpType: x.codepointType(f.off); break;
      case vs::Match: {
        bool list = f.mfields.size() == 1 && s.field(f.mfields[0])->type != 'S';
        if (list) {
          x.matchData(*fb[f.mfields[0]], S(f.mrows[0][0]));
        } else {
          std::vector<d::FieldReference> refs;
          for (auto& m : f.mfields) refs.push_back(*fb[m]);
          x.matchAnyRowOfCsv(S(vs::csvText(f.mrows, nullptr, false)), refs);
        }
        if (!f.thenF.empty()) {
          std::vector<d::FieldExpressionBldr> a, e;
          for (auto& m : f.thenF) a.push_back(fb[m]->value());
          for (auto& m : f.elseF) e.push_back(fb[m]->value());
          x.ifTrue(a);
          x.ifFalse(e);
        }
      }
    }
  }
  for (auto& n : s.ngrams) {
    std::vector<std::vector<d::FeatureRef>> t;
    for (auto& l : n.t) {
      t.emplace_back();
      for (auto& a : l) {
        if (fb.count(a)) t.back().push_back(*fb[a]);
        else t.back().push_back(*ftb[a]);
      }
    }
    if (t.size() == 1) b.unigram(t[0]);
    else if (t.size() == 2) b.bigram(t[1], t[0]);
    else b.trigram(t[2], t[1], t[0]);
  }
  for (auto& u : s.unks) {
    auto& x = b.unk(S(u.name), u.row);
    auto cls = (chars::CharacterClass)u.cls;
    switch (u.type) {
      case 's': x.single(cls); break;
      case 'c': x.chunking(cls); break;
      case 'o': x.onomatopoeia(cls); break;
      case 'n': x.numeric(cls); break;
      default: x.normalize();
    }
    if (!u.featTo.empty()) x.writeFeatureTo(*ftb[u.featTo]);
    std::vector<d::FieldReference> refs;
    for (auto& m : u.surfTo) refs.push_back(*fb[m]);
    if (!refs.empty()) x.outputTo(refs);
    if (u.low) x.lowPriority();
  }
  if (!s.train.empty()) {
    auto& t = b.train();
    for (auto& f : s.train) t.field(*fb[f.field], f.weight16 / 16.0f);
    for (auto& g : s.gold) t.allowGoldUnkWith(*fb[g.target], *fb[g.src], S(g.key));
  }
  auto st = b.build(out);
  return st;
}

inline Status buildSpecText(const vs::Spec& s, vh::Rng& r, const std::string& dir,
                            spec::AnalysisSpec* out, std::string* textOut = nullptr,
                            bool quotes = false) {
  std::map<std::string, std::string> files;
  vs::quoteUsed() = false;
  std::string text = vs::specText(s, r, &files);
  if (textOut) *textOut = text;
  // doubled quotes in text specifications: known finding of C11
  if (vs::quoteUsed() && !quotes) return buildSpecDsl(s, out);
  for (auto& f : files) std::ofstream(dir + "/" + f.first, std::ios::binary) << f.second;
  std::string name = dir + "/model.spec";
  std::ofstream(name, std::ios::binary) << text;
  return spec::parseFromFile(name, out);
}

class VAnalyzer : public AnalyzerImpl {
 public:
  VAnalyzer(const CoreHolder* core, const ScoringConfig& sc, const AnalyzerConfig& c)
      : AnalyzerImpl(core, sc, c) {}
  u64 memory() const { return memMgr_.used(); }
  Status seeds(StringPiece input) {
    JPP_RETURN_IF_ERROR(this->resetForInput(input));
    return this->prepareNodeSeeds();
  }
  Status run(StringPiece input, const ScorerDef* sdef, ScorePlugin* plugin = nullptr) {
    JPP_RETURN_IF_ERROR(this->resetForInput(input));
    this->setPlugin(plugin);
    JPP_RETURN_IF_ERROR(this->prepareNodeSeeds());
    JPP_RETURN_IF_ERROR(this->buildLattice());
    JPP_RETURN_IF_ERROR(this->bootstrapAnalysis());
    JPP_RETURN_IF_ERROR(this->computeScores(sdef));
    return Status::Ok();
  }
};

struct Env {
  vs::World w;
  spec::AnalysisSpec spec;
  dic::DictionaryBuilder builder;
  std::string modelFile;
  model::FilesystemModel fsModel;
  model::ModelInfo info;
  dic::BuiltDictionary restored;
  dic::DictionaryHolder dic;
  std::unique_ptr<CoreHolder> core;
  std::vector<float> weights;
  std::unique_ptr<HashedFeaturePerceptron> perceptron;
  ScorerDef sdef;
  std::string specText, csv;

  std::vector<float> makeWeights(vh::Rng& r, int bits) {
    std::vector<float> v((size_t)1 << bits);
    for (auto& x : v) x = (float)r.range(-64, 64) / 16.0f;
    return v;
  }

  void setWeights(std::vector<float> wt) {
    weights = std::move(wt);
    perceptron.reset(new HashedFeaturePerceptron(util::ArraySlice<float>{weights}));
    sdef = ScorerDef{};
    sdef.feature = perceptron.get();
    sdef.scoreWeights = {1.f};
  }

  // builds the specification and the dictionary, writes and reads a model
  Status build(vh::Rng& r, const std::string& dir) {
    if (w.spec.hasLow() || w.spec.hasForward() || r.chance(50)) {
      JPP_RETURN_IF_ERROR(buildSpecDsl(w.spec, &spec));
    } else {
      JPP_RETURN_IF_ERROR(buildSpecText(w.spec, r, dir, &spec, &specText));
    }
    csv = vs::csvText(w.dic.rows, &r, r.chance(80));
    JPP_RETURN_IF_ERROR(builder.importSpec(&spec));
    JPP_RETURN_IF_ERROR(builder.importCsv("dic", csv));
    return finish(dir);
  }

  Status finish(const std::string& dir) {
    modelFile = dir + "/m.jppmdl";
    model::ModelInfo nfo{};
    nfo.parts.emplace_back();
    JPP_RETURN_IF_ERROR(builder.fillModelPart(&nfo.parts.back()));
    {
      model::ModelSaver saver;
      JPP_RETURN_IF_ERROR(saver.open(modelFile));
      JPP_RETURN_IF_ERROR(saver.save(nfo));
    }
    JPP_RETURN_IF_ERROR(fsModel.open(modelFile));
    JPP_RETURN_IF_ERROR(fsModel.load(&info));
    JPP_RETURN_IF_ERROR(restored.restoreDictionary(info));
    JPP_RETURN_IF_ERROR(dic.load(restored));
    core.reset(new CoreHolder(restored.spec, dic));
    return core->initialize(nullptr);
  }

  std::unique_ptr<VAnalyzer> analyzer(int beam, const AnalyzerConfig& cfg) {
    std::unique_ptr<VAnalyzer> a(new VAnalyzer(core.get(), ScoringConfig{beam, 1}, cfg));
    return a;
  }
};

// ------------------------------------------------------------- reference: text

struct Sent {
  std::string text;
  std::vector<uint32_t> cps;
  std::vector<size_t> off;
  std::vector<int> cls;
  int n() const { return (int)cps.size(); }
  std::string sub(int a, int b) const { return text.substr(off[a], off[b] - off[a]); }
  std::string ch(int i) const { return sub(i, i + 1); }
  bool has(int i, int c) const { return (cls[i] & c) != 0; }
};

inline Sent makeSent(const std::string& t) {
  Sent s;
  s.text = t;
  auto d = vt::decode(t);
  s.cps = d.cps;
  s.off = d.off;
  for (auto c : s.cps) s.cls.push_back((int)chars::getCodeType((char32_t)c));
  return s;
}

// ------------------------------------------------------------- reference: candidates

struct Cand {
  int start, end;
  bool unk = false;
  int src = -1;             // row that gives the features
  std::vector<int> rows;    // rows behind the candidate (aliases)
  std::set<std::string> over;  // fields replaced by the surface
  std::map<std::string, std::set<int>> ph;  // allowed values
  int unkIdx = -1;
};

struct Group {
  std::vector<int> rows;
};

class RefModel {
 public:
  const vs::Spec& s;
  const vs::Dic& d;
  const vs::Field& tf;
  std::set<std::string> used;
  std::map<std::string, std::vector<Group>> dict;  // surface -> groups
  std::set<std::string> prefixes;
  std::vector<std::string> phNames;  // used placeholders
  std::vector<const vs::Feature*> usedMatch;

  explicit RefModel(const vs::World& w)
      : s(w.spec), d(w.dic), tf(w.spec.trieField()), used(usedFields(w.spec)) {
    std::set<int> tmpl;
    for (auto& u : s.unks) tmpl.insert(u.row);
    Strs alias;
    if (s.train.empty()) {
      alias.assign(used.begin(), used.end());
    } else {
      for (auto& t : s.train)
        if (t.weight16 != 0) alias.push_back(t.field);
    }
    std::map<std::string, std::map<std::string, size_t>> idx;
    for (int i = 0; i < (int)d.rows.size(); ++i) {
      if (tmpl.count(i + 1)) continue;
      const std::string& sf = d.rows[i][tf.col - 1];
      std::string key;
      for (auto& a : alias) key += val(i, a) + "\x03";
      auto& m = idx[sf];
      auto it = m.find(key);
      if (it == m.end()) {
        m[key] = dict[sf].size();
        dict[sf].push_back(Group{{i}});
      } else {
        dict[sf][it->second].rows.push_back(i);
      }
    }
    for (auto& p : dict) {
      auto dec = vt::decode(p.first);
      for (size_t k = 1; k < dec.off.size(); ++k)
        prefixes.insert(p.first.substr(0, dec.off[k]));
    }
    std::set<std::string> usedNames;
    for (auto& n : s.ngrams)
      for (auto& t : n.t)
        for (auto& a : t) usedNames.insert(a);
    for (auto& u : s.unks)
      if (!u.featTo.empty()) usedNames.insert(u.featTo);
    for (auto& f : s.features) {
      if (!usedNames.count(f.name)) continue;
      if (f.kind == vs::Placeholder) phNames.push_back(f.name);
      if (f.kind == vs::Match) usedMatch.push_back(&f);
    }
  }

  const std::string& cell(int row, const std::string& f) const {
    return d.rows[row][s.field(f)->col - 1];
  }
  std::string val(int row, const std::string& f) const {
    return canonCell(*s.field(f), cell(row, f));
  }

  bool matches(int row, const vs::Feature& f) const {
    auto& f0 = *s.field(f.mfields[0]);
    if (f0.type == 'L' || f0.type == 'K') {
      const std::string& want = f.mrows[0][0];
      const std::string& c = d.rows[row][f0.col - 1];
      // the cell is a csv row with the list separator
      for (auto& e : splitBy(c, f0.lsep)) {
        std::string k = e;
        if (f0.type == 'K') {
          size_t p = e.find(f0.kvsep);
          if (p != std::string::npos) k = e.substr(0, p);
        }
        if (k == want) return true;
      }
      return false;
    }
    for (auto& mr : f.mrows) {
      bool ok = true;
      for (size_t i = 0; i < f.mfields.size(); ++i)
        ok &= d.rows[row][s.field(f.mfields[i])->col - 1] == mr[i];
      if (ok) return true;
    }
    return false;
  }

  enum St { NoNode, NoLeaf, Ok };
  St status(const std::string& w) const {
    if (dict.count(w)) return Ok;
    return prefixes.count(w) ? NoLeaf : NoNode;
  }

  bool connected(const Sent& t, const std::vector<Cand>& cs) const {
    std::vector<char> ok(t.n() + 1);
    ok[0] = 1;
    for (int i = 0; i < t.n(); ++i)
      if (ok[i])
        for (auto& c : cs)
          if (c.start == i) ok[c.end] = 1;
    return ok[t.n()];
  }

  // all candidates of the sentence; *conn = false if there is no path
  std::vector<Cand> candidates(const Sent& t, bool* conn) const {
    std::vector<Cand> cs;
    for (int i = 0; i < t.n(); ++i)
      for (int j = i + 1; j <= t.n(); ++j) {
        std::string w = t.sub(i, j);
        if (!prefixes.count(w)) break;
        auto it = dict.find(w);
        if (it == dict.end()) continue;
        for (auto& g : it->second) {
          Cand c;
          c.start = i;
          c.end = j;
          c.src = g.rows[0];
          c.rows = g.rows;
          cs.push_back(c);
        }
      }
    for (size_t k = 0; k < s.unks.size(); ++k)
      if (!s.unks[k].low) unknowns(t, (int)k, &cs);
    *conn = connected(t, cs);
    if (!*conn) {
      for (size_t k = 0; k < s.unks.size(); ++k)
        if (s.unks[k].low) unknowns(t, (int)k, &cs);
      *conn = connected(t, cs);
    }
    return cs;
  }

  Cand unkCand(int start, int end, int k, int ph) const {
    auto& u = s.unks[k];
    Cand c;
    c.start = start;
    c.end = end;
    c.unk = true;
    c.unkIdx = k;
    c.src = u.row - 1;
    c.rows = {c.src};
    c.over.insert(u.surfTo.begin(), u.surfTo.end());
    if (!u.featTo.empty()) c.ph[u.featTo] = {ph};
    return c;
  }

  // length of the prefix which is in the trie decides the placeholder
  bool everNoNode(const Sent& t, int i, int j) const {
    for (int k = i + 1; k <= j; ++k)
      if (status(t.sub(i, k)) == NoNode) return true;
    return false;
  }

  void unknowns(const Sent& t, int k, std::vector<Cand>* cs) const {
    auto& u = s.unks[k];
    switch (u.type) {
      case 's':
        for (int i = 0; i < t.n(); ++i) {
          if (!t.has(i, u.cls)) continue;
          auto st = status(t.ch(i));
          if (st == Ok) continue;
          cs->push_back(unkCand(i, i + 1, k, st == NoNode));
        }
        break;
      case 'c':
        for (int i = 0; i < t.n(); ++i)
          for (int j = i; j < t.n() && t.has(j, u.cls); ++j) {
            if (status(t.sub(i, j + 1)) == Ok) continue;
            cs->push_back(unkCand(i, j + 1, k, everNoNode(t, i, j + 1)));
          }
        break;
      case 'o':
        for (int i = 0; i < t.n(); ++i) {
          if (!t.has(i, u.cls)) continue;
          int c0 = t.cls[i];
          if (i + 1 >= t.n() || !t.has(i + 1, c0)) continue;
          for (int h = 2; h <= 4 && i + 2 * h <= t.n(); ++h) {
            if (!t.has(i + h, c0)) break;
            if (t.sub(i, i + h) != t.sub(i + h, i + 2 * h)) continue;
            if (status(t.sub(i, i + 2 * h)) == Ok) continue;
            cs->push_back(unkCand(i, i + 2 * h, k, everNoNode(t, i, i + 2 * h)));
          }
        }
        break;
      case 'n':
        for (int i = 0; i < t.n(); ++i) {
          int len = numberLen(t, i, u.cls);
          if (len == 0) continue;
          std::string w = t.sub(i, i + len);
          if (status(w) == Ok) {
            bool same = false;
            for (auto& g : dict.at(w)) same |= likeTemplate(g.rows[0], u);
            if (!same) cs->push_back(unkCand(i, i + len, k, 0));
          } else {
            cs->push_back(unkCand(i, i + len, k, everNoNode(t, i, i + len)));
          }
        }
        break;
      case 'z':
        normalized(t, k, cs);
        break;
    }
  }

  bool likeTemplate(int row, const vs::Unk& u) const {
    for (auto& f : used) {
      if (std::find(u.surfTo.begin(), u.surfTo.end(), f) != u.surfTo.end()) continue;
      if (val(row, f) != val(u.row - 1, f)) return false;
    }
    for (auto f : usedMatch)
      if (matches(row, *f) != matches(u.row - 1, *f)) return false;
    return true;
  }

  int suffixAt(const Sent& t, int p) const {  // p absolute, previous char checked
    static const Strs suf = {"キロ", "メガ", "ギガ", "テラ", "ミリ"};
    if (p < 1 || p > t.n()) return 0;
    if (!t.has(p - 1, 8 | 0x800 | 0x40000)) return 0;
    for (auto& x : suf)
      if (p + 2 <= t.n() && t.sub(p, p + 2) == x) return 2;
    return 0;
  }

  int numberLen(const Sent& t, int st, int cls) const {
    static const Strs pre = {"数", "何", "幾"};
    static const Strs inter = {"ぶんの", "分の"};
    int n = t.n();
    int pos = 0;
    while (pos <= 64 && st + pos < n) {
      int p = st + pos;
      if (t.has(p, cls)) {
        ++pos;
        continue;
      }
      int add = 0;
      if (std::find(pre.begin(), pre.end(), t.ch(p)) != pre.end() && p + 1 < n) {
        int sl = suffixAt(t, p + 1);
        if (t.has(p + 1, 0x80000) || sl) add = 1 + sl;
      }
      if (!add && pos > 0) {
        for (auto& x : inter) {
          int l = (int)vt::decode(x).cps.size();
          if (p + l < n && t.has(p - 1, cls) && t.sub(p, p + l) == x && t.has(p + l, cls)) {
            add = l;
            break;
          }
        }
        if (!add) add = suffixAt(t, p);
        if (!add && t.has(p, 0x40)) {
          int m = 0;
          while (m < 4 && p + 1 + m < n && t.has(p + 1 + m, 8)) ++m;
          if (m == 3) add = 1;
        }
        if (!add && t.has(p, 0x10 | 0x20) && t.has(p - 1, cls) && p + 1 < n && t.has(p + 1, cls))
          add = 1;
      }
      if (!add) return pos;
      pos += add;
    }
    return pos;
  }

  struct Opt {
    std::string text;
    bool del;
    int flags;
  };

  std::vector<std::vector<Opt>> normOptions(const Sent& t) const {
    static const char* const small[][2] = {
        {"ぁ", "あ"}, {"ぃ", "い"}, {"ぅ", "う"}, {"ぇ", "え"}, {"ぉ", "お"},
        {"ゎ", "わ"}, {"ヶ", "ケ"}, {"ケ", "ヶ"}};
    static const std::map<std::string, std::string> prol = [] {
      std::map<std::string, std::string> m;
      auto put = [&](const char* from, const char* to) {
        auto d = vt::decode(from);
        std::string f = from;
        for (size_t i = 0; i < d.cps.size(); ++i)
          m[f.substr(d.off[i], d.off[i + 1] - d.off[i])] = to;
      };
      put("かがばまゃ", "あ");
      put("いきしちにひじけせへめれげぜでべぺえね", "い");
      put("くすつふゆぐずぷゅおこそとのほもよろごぞどぼぽょ", "う");
      return m;
    }();
    static const std::string erow = "えけげせぜてでねへべめれ";
    static const std::map<std::string, std::string> lower = [] {
      std::map<std::string, std::string> m;
      auto put = [&](const char* from, const char* to) {
        auto d = vt::decode(from);
        std::string f = from;
        for (size_t i = 0; i < d.cps.size(); ++i)
          m.emplace(f.substr(d.off[i], d.off[i + 1] - d.off[i]), to);
      };
      put("かさたなはまやらわがざだばぱ", "ぁ");
      put("いしにりぎじねれぜ", "ぃ");
      put("うくすふむるよ", "ぅ");
      put("けせてめで", "ぇ");
      put("こそのもろぞど", "ぉ");
      return m;
    }();
    const int HIRA = 0x400, KATA = 0x200, KANJI = 4, CHOON = 0x8000;
    std::vector<std::vector<Opt>> o(t.n());
    bool prevDel = false;
    for (int p = 0; p < t.n(); ++p) {
      bool del = false;
      if (t.has(p, KATA | HIRA | 0x10000 | 0x100000 | KANJI | CHOON)) {
        std::string c = t.ch(p), pc = p ? t.ch(p - 1) : "";
        if (p && t.has(p, CHOON) && prol.count(pc)) {
          o[p].push_back({prol.at(pc), false, 4 | 0x10});
          if (erow.find(pc) != std::string::npos)
            o[p].push_back({"え", false, 4 | 0x10 | 0x200});
        } else {
          for (auto& x : small)
            if (c == x[0]) o[p].push_back({x[1], false, 4 | 2});
        }
        if (p) {
          bool tsu = c == "っ" || c == "ッ";
          if (t.has(p, CHOON) && (prevDel || t.has(p - 1, KANJI | HIRA | KATA))) {
            o[p].push_back({"", true, 8 | 0x40});
            del = true;
          } else if (tsu && (prevDel || p + 1 >= t.n() ||
                             t.has(p + 1, 1 | 2 | 8 | 0x10 | 0x20 | 0x80 | 0x100 | 0x20000 |
                                              0x1000 | 0x2000 | 0x40) ||
                             t.ch(p + 1) == c ||
                             (t.cls[p - 1] & t.cls[p] & t.cls[p + 1] & (HIRA | KATA)))) {
            o[p].push_back({"", true, 8 | 0x80});
            del = true;
          } else {
            auto it = lower.find(pc);
            bool lowc = c == "ぁ" || c == "ぃ" || c == "ぅ" || c == "ぇ" || c == "ぉ";
            if ((it != lower.end() && it->second == c) || (prevDel && lowc && pc == c)) {
              o[p].push_back({"", true, 8 | 0x100});
              del = true;
            }
          }
        }
      }
      prevDel = del;
    }
    return o;
  }

  void normalized(const Sent& t, int k, std::vector<Cand>* cs) const {
    auto& u = s.unks[k];
    auto opts = normOptions(t);
    for (int i = 0; i < t.n(); ++i) {
      // word so far, flags
      std::set<std::pair<std::string, int>> cur;
      if (status(t.ch(i)) == NoNode) continue;
      cur.insert({t.ch(i), 1});
      for (int p = i + 1; p < t.n() && !cur.empty(); ++p) {
        std::set<std::pair<std::string, int>> next;
        std::map<std::string, std::set<int>> found;
        for (auto& st : cur) {
          auto step = [&](const std::string& w, int fl, bool del) {
            if (status(w) == NoNode) return;
            next.insert({w, fl});
            if (status(w) == Ok && fl != 1) found[w].insert(fl | (del ? 0x20 : 0));
          };
          step(st.first + t.ch(p), st.second | 1, false);
          for (auto& o : opts[p]) step(st.first + o.text, st.second | o.flags, o.del);
        }
        for (auto& f : found) {
          for (auto& g : dict.at(f.first)) {
            Cand c;
            c.start = i;
            c.end = p + 1;
            c.unk = true;
            c.unkIdx = k;
            c.src = g.rows[0];
            c.rows = g.rows;
            c.over.insert(u.surfTo.begin(), u.surfTo.end());
            // which one of several ways is reported is not specified
            if (!u.featTo.empty()) c.ph[u.featTo] = f.second;
            cs->push_back(c);
          }
        }
        cur.swap(next);
      }
    }
  }

  // --------------------------------------------------------- canonical form

  std::string rowText(const Cand& c, int row, const Sent& t) const {
    std::string o;
    for (auto& f : s.fields) {
      if (c.over.count(f.name)) o += t.sub(c.start, c.end);
      else if (used.count(f.name)) o += val(c.src, f.name);
      else o += val(row, f.name);
      o += "\x04";
    }
    return o;
  }

  std::string canon(const Cand& c, const Sent& t) const {
    std::string o = std::to_string(c.start) + "-" + std::to_string(c.end) + (c.unk ? "U" : "D");
    Strs rows;
    for (int r : c.rows) rows.push_back(rowText(c, r, t));
    std::sort(rows.begin(), rows.end());
    for (auto& r : rows) o += "|" + r;
    return o;
  }
};

// makes a generated world valid: training fields with weights must be analysed
inline void fixWorld(vs::World& w) {
  auto used = usedFields(w.spec);
  auto& t = w.spec.train;
  t.erase(std::remove_if(t.begin(), t.end(),
                         [&](const vs::TrainF& f) { return !used.count(f.field) && f.weight16 != 0; }),
          t.end());
}

// ------------------------------------------------------------- observation

struct Reader {
  const vs::Spec& s;
  std::map<std::string, StringField> sf;
  std::map<std::string, IntField> inf;
  std::map<std::string, StringListField> lf;
  std::map<std::string, KVListField> kf;

  Reader(const vs::Spec& s, const OutputManager& om, vh::Ctx& c) : s(s) {
    for (auto& f : s.fields) {
      Status st = Status::Ok();
      switch (f.type) {
        case 'S': st = om.stringField(f.name, &sf[f.name]); break;
        case 'I': st = om.intField(f.name, &inf[f.name]); break;
        case 'L': st = om.stringListField(f.name, &lf[f.name]); break;
        default: st = om.kvListField(f.name, &kf[f.name]);
      }
      if (!st) c.viol("output-field", f.name + ": " + msg(st));
    }
  }

  std::string value(const vs::Field& f, const NodeWalker& w) {
    switch (f.type) {
      case 'S': return str(sf[f.name][w]);
      case 'I': return std::to_string(inf[f.name][w]);
      case 'L': {
        Strs v;
        auto it = lf[f.name][w];
        StringPiece sp;
        while (it.next(&sp)) v.push_back(str(sp));
        return joinSorted(v);
      }
      default: {
        Strs v;
        auto it = kf[f.name][w];
        while (it.next())
          v.push_back(str(it.key()) + (it.hasValue() ? "\x02=" + str(it.value()) : "\x02-"));
        return joinSorted(v);
      }
    }
  }

  // sorted rows behind the walker
  std::string rows(NodeWalker& w) {
    Strs rows;
    while (w.next()) {
      std::string o;
      for (auto& f : s.fields) o += value(f, w) + "\x04";
      rows.push_back(o);
    }
    std::sort(rows.begin(), rows.end());
    std::string o;
    for (auto& r : rows) o += "|" + r;
    return o;
  }
};

// ------------------------------------------------------------- reference: features

struct Hash {
  uint64_t st = 0x16f11fe89b0d677cULL;
  Hash& mix(uint64_t d) {
    uint64_t v = (st ^ d) * 0x6eed0e9da4d94a4fULL;
    st = (v << 32) | (v >> 32);
    return *this;
  }
};

}  // namespace vc
#endif
