// Random Jumandic models (dictionary rows + weights) and the analyzer program
// around them.
#ifndef VERIF_VJUM_H
#define VERIF_VJUM_H

#include <cmath>
#include <cstring>
#include <memory>

#include "core/analysis/analysis_result.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/score_processor.h"
#include "core/core.h"
#include "core/dic/dic_builder.h"
#include "core/impl/model_io.h"
#include "core/impl/perceptron_io.h"
#include "core/spec/spec_dsl.h"
#include "jumandic/shared/jumandic_env.h"
#include "jumandic/shared/jumandic_ids.h"
#include "jumandic/shared/jumandic_spec.h"
#include "util/serialization.h"
#include "vh.h"
#include "vtext.h"

namespace vj {

using namespace jumanpp;
using Strs = std::vector<std::string>;
using vh::Msg;
using vh::Rng;

inline std::string str(StringPiece p) { return std::string(p.char_begin(), p.size()); }

inline std::string msg(const Status& s) {
  std::ostringstream o;
  o << s;
  return o.str();
}

inline std::string slurp(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}

inline std::string dataDir() {
  auto p = getenv("VERIF_DATA");
  return p ? p : "data";
}

inline const std::vector<Strs>& miniRows() {
  static const std::vector<Strs> rows = [] {
    auto c = vt::parseCsv(slurp(dataDir() + "/mini.mdic"), ',', '"');
    if (!c.ok || c.rows.size() < 100) {
      fprintf(stderr, "no data\n");
      _exit(3);
    }
    return c.rows;
  }();
  return rows;
}

// columns (0-based)
enum { SURF = 0, POS = 4, SUB = 5, CFORM = 6, CTYPE = 7, BASE = 8, READ = 9, CANON = 10, FEAT = 11 };

struct World {
  std::vector<Strs> rows;
  bool multiline = false;  // fields with line breaks
  int bits = 10;
  std::vector<float> weights;
  std::string csv;
};

inline std::string csvCell(const std::string& s, Rng& r) {
  bool need = s.find_first_of(",\"\n\r") != std::string::npos;
  if (!need && !r.chance(3)) return s;
  std::string o = "\"";
  for (char c : s) {
    if (c == '"') o += '"';
    o += c;
  }
  return o + "\"";
}

inline std::string randChar1(Rng& r) {
  for (;;) {
    auto c = vt::randomChar(r);
    // keys can not have null characters, line breaks are separate
    if (c.size() > 1 || !std::strchr("\r\n", c[0])) return c;
  }
}

inline std::string randWord(Rng& r, const std::vector<Strs>& rows) {
  std::string w;
  if (r.chance(40)) {
    w = r.pick(rows)[SURF];
    if (r.chance(50)) w += randChar1(r);
    return w;
  }
  int n = 1 + (int)r.skewed(4);
  for (int i = 0; i < n; ++i) w += randChar1(r);
  return w;
}

inline std::string randFeat(Rng& r) {
  static const char* const keys[] = {"代表表記", "カテゴリ", "ドメイン", "可能動詞", "ふりがな", "連用形名詞化",
                                     "濁音化D", "a,b", "q\"q", "x", "品詞推定", "A;B", "|", "\"", "自他動詞"};
  static const char* const vals[] = {"人", "抽象物;人", "a:b", "成す/なす", "", "1,2", "\"x\"", "名詞", "0.5", "形容詞:大きい/おおきい"};
  std::string o;
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; ++i) {
    if (i) o += " ";
    o += r.pick(keys);
    if (r.chance(60)) o += std::string(":") + r.pick(vals);
  }
  return o;
}

inline World makeWorld(Rng& r, int maxRows = 160) {
  World w;
  auto& mini = miniRows();
  for (int i = 0; i < 8; ++i) w.rows.push_back(mini[i]);
  int n = 5 + (int)r.skewed(maxRows);
  // neighbouring rows look alike: take some runs
  while ((int)w.rows.size() < n + 8) {
    int at = 8 + (int)r.below(mini.size() - 8);
    int len = 1 + (int)r.skewed(6);
    for (int i = at; i < at + len && i < (int)mini.size(); ++i) w.rows.push_back(mini[i]);
  }
  int extra = (int)r.skewed(40);
  for (int i = 0; i < extra; ++i) {
    Strs row = w.rows[8 + r.below(w.rows.size() - 8)];
    int k = (int)r.below(10);
    if (k < 4) {  // merged with the original
      if (r.chance(70)) row[FEAT] = r.chance(20) ? "NIL" : randFeat(r);
      if (r.chance(50)) row[CANON] = r.chance(20) ? "*" : randWord(r, w.rows) + "/" + randWord(r, w.rows);
    } else if (k < 7) {  // homograph
      auto& o = r.pick(w.rows);
      for (int c : {POS, SUB, CFORM, CTYPE})
        if (r.chance(80)) row[c] = o[c];
      if (r.chance(50)) row[READ] = randWord(r, w.rows);
      if (r.chance(30)) row[BASE] = randWord(r, w.rows);
      if (r.chance(30)) {
        int p = (int)r.below(jumandic::posInfoCount);
        row[POS] = str(jumandic::posInfo[p].part1);
        row[SUB] = str(jumandic::posInfo[p].part2);
      }
      if (r.chance(20)) {
        int p = (int)r.below(jumandic::conjInfoCount);
        row[CTYPE] = str(jumandic::conjInfo[p].part1);
        row[CFORM] = str(jumandic::conjInfo[p].part2);
      }
      if (r.chance(5)) row[POS] = "*";
      if (r.chance(5)) row[SUB] = r.chance(50) ? "*" : "新品詞";
    } else {  // new word
      row[SURF] = randWord(r, w.rows);
      if (r.chance(60)) row[BASE] = row[SURF];
      if (r.chance(60)) row[READ] = row[SURF];
      if (r.chance(40)) row[FEAT] = randFeat(r);
    }
    w.rows.push_back(row);
  }
  if (r.chance(30)) {
    // order of the rows matters for merged entries
    for (size_t i = w.rows.size(); i > 9; --i)
      std::swap(w.rows[i - 1], w.rows[8 + r.below(i - 8)]);
  }
  if (r.chance(8)) {
    w.multiline = true;
    for (int i = 0; i < 4; ++i) {
      auto& row = w.rows[8 + r.below(w.rows.size() - 8)];
      auto& f = row[r.pick((const int[]){SURF, BASE, READ, CANON})];
      f.insert(r.chance(50) ? 0 : f.size(), r.pick((const char* const[]){"\n", "\r", "\r\n", "\n\n"}));
    }
  }
  for (auto& row : w.rows) {
    for (size_t i = 0; i < row.size(); ++i) {
      if (i) w.csv += ',';
      w.csv += csvCell(row[i], r);
    }
    w.csv += '\n';
  }
  w.bits = 6 + (int)r.below(8);
  w.weights.resize((size_t)1 << w.bits);
  int range = r.chance(20) ? 1 : 64;
  int scale = r.chance(70) ? 64 : 16;
  for (auto& x : w.weights) x = (float)r.range(-range, range) / (float)scale;
  return w;
}

inline Status buildModel(const World& w, const std::string& file) {
  core::spec::AnalysisSpec spec;
  JPP_RETURN_IF_ERROR(jumandic::SpecFactory::makeSpec(&spec));
  core::dic::DictionaryBuilder b;
  JPP_RETURN_IF_ERROR(b.importSpec(&spec));
  JPP_RETURN_IF_ERROR(b.importCsv("dic", w.csv));
  core::model::ModelInfo nfo{};
  nfo.parts.emplace_back();
  JPP_RETURN_IF_ERROR(b.fillModelPart(&nfo.parts.back()));
  nfo.parts.emplace_back();
  auto& p = nfo.parts.back();
  p.kind = core::model::ModelPartKind::Perceprton;
  core::PerceptronInfo pi{w.bits};
  util::serialization::Saver sv;
  sv.save(pi);
  p.data.push_back(sv.result());
  p.data.push_back(StringPiece{reinterpret_cast<StringPiece::pointer_t>(w.weights.data()),
                               w.weights.size() * sizeof(float)});
  core::model::ModelSaver saver;
  JPP_RETURN_IF_ERROR(saver.open(file));
  return saver.save(nfo);
}

class Exec : public jumandic::JumanppExec {
 public:
  explicit Exec(const jumandic::JumanppConf& c) : JumanppExec(c) {}
  bool interpreted = false;
  Status init() override {
    if (!interpreted) return JumanppExec::init();
    // same as the program, without the generated features
    JPP_RETURN_IF_ERROR(env.loadModel(conf.modelFile.value()));
    env.setBeamSize(conf.beamSize);
    env.setGlobalBeam(conf.globalBeam, conf.rightCheck, conf.rightBeam);
    if (conf.autoStep.defined()) env.setAutoBeam(conf.beamSize, conf.autoStep, conf.globalBeam);
    JPP_RETURN_IF_ERROR(idResolver_.initialize(core().dic()));
    JPP_RETURN_IF_ERROR(env.initFeatures(nullptr));
    JPP_RETURN_IF_ERROR(env.makeAnalyzer(&analyzer_));
    return initOutput();
  }
  Status setOutput(jumandic::OutputType t) {
    conf.outputType = t;
    return initOutput();
  }
  jumandic::JumanppConf& config() { return conf; }
  core::JumanppEnv& environment() { return env; }
  core::analysis::AnalyzerImpl* impl() { return analyzer_.impl(); }
};

inline std::string confText(const jumandic::JumanppConf& c) {
  return Msg() << "beam=" << c.beamSize.value() << " out=" << c.beamOutput.value()
               << " gbeam=" << c.globalBeam.value() << " rbeam=" << c.rightBeam.value()
               << " rcheck=" << c.rightCheck.value() << " auto=" << c.autoStep.value();
}

// configurations the command line can produce
inline jumandic::JumanppConf makeConf(Rng& r, const std::string& model) {
  jumandic::JumanppConf c;
  c.modelFile = model;
  if (r.chance(30)) return c;
  c.beamSize = 1 + (int)r.skewed(9);
  if (r.chance(70)) c.beamOutput = r.chance(30) ? -1 : 1 + (int)r.skewed(7);
  if (c.beamSize.value() < c.beamOutput.value()) c.beamSize = c.beamOutput.value();
  if (r.chance(60)) {
    c.globalBeam = r.chance(15) ? 0 : 1 + (int)r.skewed(9);
    c.rightBeam = 1 + (int)r.skewed(8);
    c.rightCheck = r.chance(10) ? 0 : 1 + (int)r.skewed(5);
    if (c.rightCheck.value() == 0 && r.chance(50)) c.rightBeam = 0;
  }
  if (r.chance(20)) {
    c.autoStep = 1 + (int)r.below(4);
    c.globalBeam = c.beamSize.value() + (int)r.below(6);
  }
  return c;
}

inline std::string randSentence(Rng& r, const World& w, int maxParts = 10) {
  std::string s;
  int n = 1 + (int)r.skewed(maxParts);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(100);
    if (k < 65) s += w.rows[8 + r.below(w.rows.size() - 8)][SURF];
    else if (k < 80) s += vt::randomChar(r);
    else if (k < 88) {
      // a word in a non-standard spelling
      auto d = w.rows[8 + r.below(w.rows.size() - 8)][SURF];
      auto dec = vt::decode(d);
      for (size_t j = 0; j < dec.cps.size(); ++j) {
        s += d.substr(dec.off[j], dec.off[j + 1] - dec.off[j]);
        if (r.chance(40)) s += r.pick((const char* const[]){"ー", "っ", "ぁ", "〜", "ぇ", "ッ", "ぅ"});
      }
    } else if (k < 94) {
      auto c = vt::randomChar(r);
      auto d = vt::randomChar(r);
      s += c + d + c + d;
    } else {
      static const char* const nums[] = {"12", "3.5", "1,000", "三百", "数十", "２０１０", "何千", "5キロ", "二分の一", "10億"};
      s += r.pick(nums);
    }
  }
  // sentences are lines
  s.erase(std::remove(s.begin(), s.end(), '\n'), s.end());
  return s;
}

// ------------------------------------------------------------- ground truth

struct KV {
  std::string k, v;
  bool has = false;
  bool operator==(const KV& o) const { return k == o.k && v == o.v && has == o.has; }
  bool operator<(const KV& o) const {
    return std::tie(k, has, v) < std::tie(o.k, o.has, o.v);
  }
};

struct Row {
  std::string surface, pos, sub, cform, ctype, base, read, canon;
  std::vector<KV> feats;
  bool special = false;
  int flags = 0;
  std::string key() const {
    return surface + "\x03" + read + "\x03" + base + "\x03" + pos + "\x03" + sub + "\x03" + ctype +
           "\x03" + cform;
  }
  std::string full() const {
    std::string o = key() + "\x04" + canon;
    auto f = feats;
    std::sort(f.begin(), f.end());
    for (auto& x : f) o += "\x05" + x.k + (x.has ? "\x06" + x.v : "");
    return o;
  }
};

inline std::vector<KV> parseFeats(const std::string& s) {
  std::vector<KV> v;
  if (s == "NIL" || s.empty()) return v;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find(' ', i);
    if (j == std::string::npos) j = s.size();
    std::string e = s.substr(i, j - i);
    i = j + 1;
    KV x;
    size_t k = e.find(':');
    x.k = e.substr(0, k);
    if (k != std::string::npos) {
      x.has = true;
      x.v = e.substr(k + 1);
    }
    v.push_back(x);
  }
  return v;
}

inline Row csvRow(const Strs& c) {
  auto e = [](const std::string& s) { return s == "*" ? std::string() : s; };
  Row r;
  r.surface = c[SURF];
  r.pos = e(c[POS]);
  r.sub = e(c[SUB]);
  r.cform = e(c[CFORM]);
  r.ctype = e(c[CTYPE]);
  r.base = c[BASE];
  r.read = c[READ];
  r.canon = e(c[CANON]);
  r.feats = parseFeats(c[FEAT]);
  return r;
}

struct Ids {
  int p = 0, s = 0, t = 0, f = 0;
  bool operator==(const Ids& o) const { return p == o.p && s == o.s && t == o.t && f == o.f; }
  std::string text() const { return Msg() << p << "-" << s << "-" << t << "-" << f; }
};

inline std::string star(const std::string& s) { return s.empty() ? "*" : s; }

// ids of the grammar tables
inline Ids idsOf(const Row& r) {
  Ids id;
  for (u32 i = 0; i < jumandic::posInfoCount; ++i) {
    auto& x = jumandic::posInfo[i];
    if (str(x.part1) == r.pos && str(x.part2) == star(r.sub)) {
      id.p = x.id1;
      id.s = x.id2;
      break;
    }
  }
  if (!r.ctype.empty()) {
    for (u32 i = 0; i < jumandic::conjInfoCount; ++i) {
      auto& x = jumandic::conjInfo[i];
      if (str(x.part1) != r.ctype) continue;
      if (r.cform.empty()) {
        id.t = x.id1;
        break;
      }
      if (str(x.part2) == r.cform) {
        id.t = x.id1;
        id.f = x.id2;
        break;
      }
    }
  }
  return id;
}

struct NodeInfo {
  int b = 0, i = 0;        // boundary, position
  int start = 0, end = 0;  // codepoints
  std::vector<Row> rows;
};

struct Step {
  int b, i;
  const core::analysis::ConnectionPtr* ptr;
  int beam;  // index in the beam of this node
};

struct Truth {
  std::vector<std::vector<Step>> paths;  // by rank, in sentence order
  std::vector<float> eosScores;
  std::map<std::pair<int, int>, NodeInfo> nodes;  // all nodes between BOS and EOS
  int nb = 0;
};

struct Fields {
  core::analysis::StringField surface, pos, sub, cform, ctype, base, read, canon;
  core::analysis::KVListField feats;
  Status init(const core::analysis::OutputManager& om) {
    JPP_RETURN_IF_ERROR(om.stringField("surface", &surface));
    JPP_RETURN_IF_ERROR(om.stringField("pos", &pos));
    JPP_RETURN_IF_ERROR(om.stringField("subpos", &sub));
    JPP_RETURN_IF_ERROR(om.stringField("conjform", &cform));
    JPP_RETURN_IF_ERROR(om.stringField("conjtype", &ctype));
    JPP_RETURN_IF_ERROR(om.stringField("baseform", &base));
    JPP_RETURN_IF_ERROR(om.stringField("reading", &read));
    JPP_RETURN_IF_ERROR(om.stringField("canonic", &canon));
    return om.kvListField("features", &feats);
  }
  Row row(const core::analysis::NodeWalker& w, const core::analysis::OutputManager& om) const {
    Row r;
    r.surface = str(surface[w]);
    r.pos = str(pos[w]);
    r.sub = str(sub[w]);
    r.cform = str(cform[w]);
    r.ctype = str(ctype[w]);
    r.base = str(base[w]);
    r.read = str(read[w]);
    r.canon = str(canon[w]);
    auto it = feats[w];
    while (it.next()) {
      KV x;
      x.k = str(it.key());
      x.has = it.hasValue();
      if (x.has) x.v = str(it.value());
      r.feats.push_back(x);
    }
    auto e = w.eptr();
    r.special = e.isSpecial();
    if (r.special) r.flags = om.valueOfUnkPlaceholder(e, jumandic::NormalizedPlaceholderIdx);
    return r;
  }
};

inline Truth observe(core::analysis::Analyzer& an, const Fields& f) {
  Truth t;
  auto* l = an.impl()->lattice();
  auto& om = an.output();
  t.nb = (int)l->createdBoundaryCount();
  for (int b = 2; b < t.nb - 1; ++b) {
    auto inf = l->boundary(b)->starts()->nodeInfo();
    for (int i = 0; i < (int)inf.size(); ++i) {
      NodeInfo n;
      n.b = b;
      n.i = i;
      n.start = inf.at(i).start();
      n.end = inf.at(i).end();
      auto w = om.nodeWalker();
      if (om.locate(inf.at(i).entryPtr(), &w)) {
        while (w.next()) n.rows.push_back(f.row(w, om));
      }
      t.nodes[{b, i}] = n;
    }
  }
  if (t.nb <= 3) return t;
  auto beam = l->boundary(t.nb - 1)->starts()->beamData().row(0);
  for (int k = 0; k < (int)beam.size(); ++k) {
    auto& el = beam.at(k);
    if (core::analysis::EntryBeam::isFake(el)) break;
    t.eosScores.push_back(el.totalScore);
    std::vector<Step> path;
    int bi = el.ptr.beam;
    const core::analysis::ConnectionPtr* p = el.ptr.previous;
    while (p->boundary >= 2) {
      path.push_back(Step{p->boundary, p->right, p, bi});
      bi = p->beam;
      p = p->previous;
    }
    std::reverse(path.begin(), path.end());
    t.paths.push_back(path);
  }
  return t;
}

}  // namespace vj
#endif
