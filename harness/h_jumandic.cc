// The whole Jumandic analyzer over random dictionaries, weights, settings and
// sentences.
#include "vbench.h"

#include <google/protobuf/io/coded_stream.h>

#include "core/impl/graphviz_format.h"
#include "core/input/pex_stream_reader.h"
#include "core/input/stream_reader.h"
#include "juman.pb.h"
#include "jumanpp.pb.h"
#include "lattice_dump.pb.h"

using namespace vj;

namespace {

std::string withComment(const std::string& comment, const char* end) {
  return comment.empty() ? "" : "# " + comment + end;
}

std::string escJuman(const std::string& s) {
  if (s == "\t") return "\\t";
  if (s == " ") return "\\␣";
  return s;
}

std::string flagText(int v) {
  std::string o = "非標準表記:";
  // the bits are those of the analyzer: replaced small kana, prolonged sound...
  if (v & 4) o += "R";
  if (v & 2) o += "s";
  if (v & 0x10) o += "p";
  if (v & 0x200) o += "e";
  if (v & 8) o += "D";
  if (v & 0x40) o += "P";
  if (v & 0x100) o += "S";
  if (v & 0x80) o += "H";
  if (v & 0x20) o += "L";
  return o;
}

std::string featText(const Row& r, const char* sep) {
  std::string o;
  for (size_t i = 0; i < r.feats.size(); ++i) {
    if (i) o += sep;
    o += r.feats[i].k;
    if (r.feats[i].has) o += ":" + r.feats[i].v;
  }
  return o;
}

std::string expectJuman(const Truth& t, const std::string& comment) {
  std::string o = withComment(comment, "\n");
  if (!t.paths.empty())
    for (auto& st : t.paths[0]) {
      auto& n = t.nodes.at({st.b, st.i});
      bool first = true;
      for (auto& r : n.rows) {
        if (!first) o += "@ ";
        first = false;
        auto id = idsOf(r);
        o += escJuman(r.surface) + " " + escJuman(r.read) + " " + escJuman(r.base) + " ";
        o += star(r.pos) + " " + std::to_string(id.p) + " " + star(r.sub) + " " +
             std::to_string(id.s) + " " + star(r.ctype) + " " + std::to_string(id.t) + " " +
             star(r.cform) + " " + std::to_string(id.f) + " ";
        Strs parts;
        if (!r.canon.empty()) parts.push_back("代表表記:" + r.canon);
        if (!r.feats.empty()) parts.push_back(featText(r, " "));
        if (r.special && r.flags) parts.push_back(flagText(r.flags));
        if (parts.empty() && !r.special) {
          o += "NIL";
        } else {
          o += '"';
          for (size_t i = 0; i < parts.size(); ++i) o += (i ? " " : "") + parts[i];
          o += '"';
        }
        o += "\n";
      }
    }
  return o + "EOS\n";
}

std::string expectMorph(const Truth& t, const std::string& comment, bool full) {
  std::string o;
  if (!t.paths.empty())
    for (auto& st : t.paths[0]) {
      auto& r = t.nodes.at({st.b, st.i}).rows[0];
      if (full)
        o += r.surface + "_" + r.read + "_" + r.base + "_" + r.pos + "_" + star(r.sub) + "_" +
             star(r.ctype) + "_" + star(r.cform) + " ";
      else
        o += r.surface + "_" + r.pos + ":" + star(r.sub) + " ";
    }
  return o + withComment(comment, "") + "\n";
}

std::string expectSegment(const Truth& t, const std::string& sep) {
  std::string o;
  if (!t.paths.empty())
    for (size_t i = 0; i < t.paths[0].size(); ++i) {
      auto& st = t.paths[0][i];
      o += (i ? sep : "") + t.nodes.at({st.b, st.i}).rows[0].surface;
    }
  return o + "\n";
}

Strs splitOn(const std::string& s, char c) {
  Strs v;
  std::string cur;
  for (char x : s) {
    if (x == c) {
      v.push_back(cur);
      cur.clear();
    } else cur += x;
  }
  v.push_back(cur);
  return v;
}

bool closeTo(double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::fabs(b)); }

// nodes of the first n paths with ranks and predecessors
struct NBest {
  struct N {
    std::vector<int> ranks;  // from 0
    std::set<std::pair<int, int>> prev;
    std::vector<const core::analysis::ConnectionPtr*> conns;
    std::vector<int> beams;  // parallel to ranks
  };
  std::map<std::pair<int, int>, N> nodes;
  std::map<std::pair<int, int>, int> id;
  int n = 0;
};

NBest nbest(const Truth& t, int topN) {
  NBest b;
  b.n = std::min<int>(topN, (int)t.paths.size());
  for (int k = 0; k < b.n; ++k) {
    std::pair<int, int> prev{1, 0};
    for (auto& st : t.paths[k]) {
      auto& n = b.nodes[{st.b, st.i}];
      n.ranks.push_back(k);
      n.beams.push_back(st.beam);
      n.prev.insert(prev);
      n.conns.push_back(st.ptr);
      prev = {st.b, st.i};
    }
  }
  int id = 0;
  for (auto& p : b.nodes) b.id[p.first] = ++id;
  return b;
}

float rawScore(core::analysis::Analyzer& an, const core::analysis::ConnectionPtr& p, int k = 0) {
  return an.impl()->lattice()->boundary(p.boundary)->scores()->forPtr(p).at(k);
}

void checkLattice(Bench& b, const Truth& t, const std::string& out, const std::string& comment,
                  int topN, const std::string& ctx) {
  Ctx& c = b.c;
  auto& an = *b.ex->analyzerPtr();
  auto bad = [&](const std::string& key, const std::string& d) {
    c.viol("lattice-" + key, d + "\n" + ctx + "\n--- output\n" + out);
  };
  auto lines = splitOn(out, '\n');
  if (lines.size() < 2 || lines.back() != "" || lines[lines.size() - 2] != "EOS")
    return bad("end", "output does not end with EOS");
  lines.resize(lines.size() - 2);
  size_t li = 0;
  auto nb = nbest(t, topN);
  if (!comment.empty()) {
    if (lines.empty() || lines[0] != "# " + comment) return bad("comment", "comment line");
    li = 1;
  } else if (t.nb > 3) {
    std::string pre = "# MA-SCORE\t";
    if (lines.empty() || lines[0].compare(0, pre.size(), pre)) return bad("header", "no header");
    auto sc = splitOn(lines[0].substr(pre.size()), ' ');
    if (!sc.empty() && sc.back().empty()) sc.pop_back();
    if ((int)sc.size() != nb.n)
      return bad("header-count", Msg() << sc.size() << " scores, " << nb.n << " paths");
    for (int k = 0; k < nb.n; ++k) {
      std::string p = "rank" + std::to_string(k + 1) + ":";
      if (sc[k].compare(0, p.size(), p) || !closeTo(atof(sc[k].c_str() + p.size()), t.eosScores[k]))
        return bad("header-score", Msg() << sc[k] << " instead of " << t.eosScores[k]);
    }
    li = 1;
  }
  for (auto& p : nb.nodes) {
    auto& info = t.nodes.at(p.first);
    for (auto& r : info.rows) {
      if (li >= lines.size()) return bad("lines", "fewer lines than nodes");
      auto col = splitOn(lines[li++], '\t');
      auto id = idsOf(r);
      std::set<int> prevIds;
      for (auto& q : p.second.prev) prevIds.insert(q.first < 2 ? 0 : nb.id.at(q));
      Strs pv, rk;
      for (int q : prevIds) pv.push_back(std::to_string(q));
      auto join = [](const Strs& v) {
        std::string o;
        for (size_t i = 0; i < v.size(); ++i) o += (i ? ";" : "") + v[i];
        return o;
      };
      auto esc = [](const std::string& s) { return s == "\t" ? std::string("\\t") : s; };
      // a canonic form with a tab would break the columns: not generated
      Strs want = {"-",
                   std::to_string(nb.id.at(p.first)),
                   join(pv),
                   std::to_string(info.start),
                   std::to_string(info.end - 1),
                   esc(r.surface),
                   r.canon.empty() ? "" : r.canon,
                   esc(r.read),
                   esc(r.base),
                   r.pos,
                   std::to_string(id.p),
                   star(r.sub),
                   std::to_string(id.s),
                   star(r.ctype),
                   std::to_string(id.t),
                   star(r.cform),
                   std::to_string(id.f)};
      if (r.canon.empty()) want[6] = r.base + "/" + r.read;
      if (col.size() != want.size() + 1 && r.base.find('\t') == std::string::npos)
        return bad("columns", Msg() << col.size() << " columns: " << lines[li - 1]);
      // base/reading of the canonic column may contain a tab
      if (col.size() != want.size() + 1) {
        c.stat("lattice_tab_skipped");
        continue;
      }
      for (size_t k = 0; k < want.size(); ++k)
        if (want[k] != col[k] && !(k == 9 && star(want[k]) == col[k]))
          return bad("column-" + std::to_string(k),
                     "[" + col[k] + "] instead of [" + want[k] + "]: " + lines[li - 1]);
      std::string fs = col.back();
      std::string pre = r.feats.empty() ? "" : featText(r, "|") + "|";
      if (r.special && r.flags) pre += flagText(r.flags) + "|";
      if (fs.compare(0, pre.size(), pre)) return bad("features", "[" + fs + "] without [" + pre + "]");
      fs = fs.substr(pre.size());
      auto take = [&](const std::string& name, std::string* val) {
        if (fs.compare(0, name.size() + 1, name + ":")) return false;
        fs = fs.substr(name.size() + 1);
        size_t e = fs.find('|');
        *val = fs.substr(0, e);
        fs = e == std::string::npos ? "" : fs.substr(e + 1);
        return true;
      };
      std::string sc, tot, ranks;
      if (!take("特徴量スコア", &sc) || !take("形態素解析スコア", &tot) || !take("ランク", &ranks) ||
          !fs.empty())
        return bad("score-fields", "score fields: " + lines[li - 1]);
      for (int k : p.second.ranks) rk.push_back(std::to_string(k + 1));
      if (ranks != join(rk)) return bad("ranks", "ranks " + ranks + " instead of " + join(rk));
      bool ok = false;
      for (auto q : p.second.conns) ok |= closeTo(atof(sc.c_str()), rawScore(an, *q));
      if (!ok || sc != tot) return bad("score", "score " + sc + "/" + tot + ": " + lines[li - 1]);
    }
  }
  if (li != lines.size()) return bad("lines", "more lines than nodes");
  c.stat("lattice_nodes", nb.nodes.size());
  if (nb.n > 1) c.stat("lattice_nbest");
}

template <typename T>
bool parsePb(const std::string& out, T* res) {
  google::protobuf::io::CodedInputStream in((const uint8_t*)out.data(), (int)out.size());
  uint64_t n;
  if (!in.ReadVarint64(&n) || (uint64_t)(out.size() - in.CurrentPosition()) != n) return false;
  return res->ParseFromCodedStream(&in) && in.ConsumedEntireMessage();
}

template <typename M>
std::vector<KV> pbFeats(const M& m) {
  std::vector<KV> v;
  for (auto& f : m.features()) v.push_back(KV{f.key(), f.value(), f.has_value()});
  return v;
}

std::vector<KV> featsWithCanon(const Row& r) {
  std::vector<KV> v;
  if (!r.canon.empty()) v.push_back(KV{"代表表記", r.canon, true});
  v.insert(v.end(), r.feats.begin(), r.feats.end());
  return v;
}

std::string posDiff(const JumanPos& p, const JumanStringPos& s, const Row& r) {
  auto id = idsOf(r);
  Ids got;
  got.p = p.pos();
  got.s = p.subpos();
  got.t = p.conj_type();
  got.f = p.conj_form();
  if (!(got == id)) return "ids " + got.text() + " instead of " + id.text();
  if (s.pos() != star(r.pos)) return "string pos " + s.pos();
  if (s.subpos() != star(r.sub)) return "string subpos " + s.subpos();
  if (s.conj_type() != star(r.ctype)) return "string conj_type " + s.conj_type();
  if (s.conj_form() != star(r.cform)) return "string conj_form " + s.conj_form();
  return "";
}

void checkJumanPb(Bench& b, const Truth& t, const std::string& out, const std::string& comment,
                  const std::string& ctx) {
  auto bad = [&](const std::string& key, const std::string& d) {
    b.c.viol("juman-pb-" + key, d + "\n" + ctx);
  };
  JumanSentence s;
  if (!parsePb(out, &s)) return bad("parse", "not a length-prefixed message");
  if (s.comment() != comment) return bad("comment", "comment [" + s.comment() + "]");
  size_t n = t.paths.empty() ? 0 : t.paths[0].size();
  if ((size_t)s.morphemes_size() != n)
    return bad("count", Msg() << s.morphemes_size() << " morphemes instead of " << n);
  auto one = [&](const JumanMorpheme& m, const Row& r) {
    std::string d = posDiff(m.posinfo(), m.string_pos(), r);
    if (m.surface() != r.surface) d = "surface " + m.surface();
    if (m.reading() != r.read) d = "reading " + m.reading();
    if (m.baseform() != r.base) d = "baseform " + m.baseform();
    if (!(pbFeats(m) == featsWithCanon(r))) d = "features";
    if (!d.empty()) bad("morpheme", d + " for " + r.surface + "\n" + m.DebugString());
    return d.empty();
  };
  for (size_t i = 0; i < n; ++i) {
    auto& st = t.paths[0][i];
    auto& rows = t.nodes.at({st.b, st.i}).rows;
    auto& m = s.morphemes((int)i);
    if (m.variants_size() + 1 != (int)rows.size()) return bad("variants", "number of variants");
    if (!one(m, rows[0])) return;
    for (size_t k = 1; k < rows.size(); ++k)
      if (!one(m.variants((int)k - 1), rows[k])) return;
  }
}

void checkLatticePb(Bench& b, const Truth& t, const std::string& out, const std::string& comment,
                    int topN, const std::string& ctx) {
  auto bad = [&](const std::string& key, const std::string& d) {
    b.c.viol("lattice-pb-" + key, d + "\n" + ctx);
  };
  auto& an = *b.ex->analyzerPtr();
  Lattice l;
  if (!parsePb(out, &l)) return bad("parse", "not a length-prefixed message");
  if (l.comment() != comment) return bad("comment", "comment [" + l.comment() + "]");
  auto nb = nbest(t, topN);
  int ni = 0;
  std::map<std::pair<int, int>, uint32_t> ids;
  std::set<uint32_t> seen;
  for (auto& p : nb.nodes) {
    auto& info = t.nodes.at(p.first);
    for (auto& r : info.rows) {
      if (ni >= l.nodes_size()) return bad("count", "fewer nodes than expected");
      auto& m = l.nodes(ni++);
      auto id = ids.insert({p.first, m.node_id()});
      if (id.second && !seen.insert(m.node_id()).second) return bad("id", "node id is used twice");
      if (id.first->second != m.node_id()) return bad("id", "aliases with different ids");
      std::string d = posDiff(m.pos(), m.string_pos(), r);
      if (m.surface() != r.surface) d = "surface " + m.surface();
      if (m.reading() != r.read) d = "reading " + m.reading();
      if (m.dicform() != r.base) d = "dicform " + m.dicform();
      if (m.canonical() != (r.canon.empty() ? r.base + "/" + r.read : r.canon))
        d = "canonical " + m.canonical();
      if (!(pbFeats(m) == r.feats)) d = "features";
      if ((int)m.start_index() != info.start || (int)m.end_index() != info.end) d = "span";
      if (m.ranks_size() != (int)p.second.ranks.size()) d = "number of ranks";
      else if (m.cumulative_scores_size() != m.ranks_size()) d = "number of cumulative scores";
      else if (m.score_details_size() != m.ranks_size()) d = "number of details";
      else
        for (int k = 0; k < m.ranks_size(); ++k) {
          if ((int)m.ranks(k) != p.second.ranks[k] + 1) d = "rank";
          auto& el = an.impl()->lattice()->boundary(p.first.first)->starts()->beamData().row(
              p.first.second).at(p.second.beams[k]);
          if (m.cumulative_scores(k) != el.totalScore) d = "cumulative score";
          if (m.score_details(k).linear() != rawScore(an, *p.second.conns[k]))
            d = "linear score";
        }
      if (!d.empty()) return bad("node", d + " for " + r.surface + "\n" + m.DebugString());
      std::set<uint32_t> prev, want;
      for (auto q : m.prev_nodes()) prev.insert(q);
      for (auto& q : p.second.prev)
        if (q.first >= 2) want.insert(ids.count(q) ? ids.at(q) : 0);
      if (prev != want || (int)prev.size() != m.prev_nodes_size())
        return bad("prev", "predecessors of " + r.surface + "\n" + m.DebugString());
    }
  }
  if (ni != l.nodes_size()) return bad("count", "more nodes than expected");
  if (l.scores_size() != nb.n)
    return bad("scores", Msg() << l.scores_size() << " sentence scores for " << nb.n << " paths");
  for (int k = 0; k < nb.n; ++k)
    if (l.scores(k) != t.eosScores[k]) return bad("scores", "sentence score");
}

void checkSubset(Bench& b, const Truth& t, const std::string& out, const std::string& comment,
                 const std::string& ctx) {
  auto bad = [&](const std::string& key, const std::string& d) {
    b.c.viol("dic-subset-" + key, d + "\n" + ctx + "\n--- output\n" + out);
  };
  std::string head = "#### MRPH output ####\n" + expectMorph(t, comment, true) +
                     "\n\n### SUBSET OF DICTIONARY\n";
  if (out.compare(0, head.size(), head)) return bad("head", "head differs from:\n" + head);
  auto csv = vt::parseCsv(out.substr(head.size()), ',', '"');
  if (!csv.ok) return bad("csv", "not a valid csv");
  std::map<std::string, int> want, got;
  std::set<std::string> groups;
  for (auto& n : t.nodes) {
    if (n.second.rows.empty() || n.second.rows[0].special) continue;
    std::string g;
    for (auto& r : n.second.rows) g += r.full() + "\x07";
    if (!groups.insert(n.second.rows[0].key()).second) continue;
    for (auto& r : n.second.rows) ++want[r.full()];
  }
  for (auto& r : csv.rows) {
    if (r.size() != 12) return bad("columns", Msg() << r.size() << " columns");
    ++got[csvRow(r).full()];
  }
  for (auto& p : want)
    if (!got.count(p.first)) return bad("missing", "a row is missing");
  for (auto& p : got) {
    if (!want.count(p.first)) return bad("extra", "a row is not of the sentence");
    if (p.second != want[p.first])
      return bad("repeated", Msg() << "a row is written " << p.second << " times instead of "
                                   << want[p.first]);
  }
  b.c.stat("subset_rows", csv.rows.size());
}

// the rows of every dictionary node are the csv rows, in the order of the csv
void checkRows(Bench& b, const Truth& t, const std::string& ctx) {
  std::map<std::string, std::vector<const Strs*>> groups;
  for (size_t i = 8; i < b.w.rows.size(); ++i)
    groups[csvRow(b.w.rows[i]).key()].push_back(&b.w.rows[i]);
  for (auto& n : t.nodes) {
    auto& rows = n.second.rows;
    if (rows.empty()) {
      b.c.viol("node-empty", Msg() << "node without rows\n" << ctx);
      return;
    }
    if (rows[0].special) continue;
    auto it = groups.find(rows[0].key());
    bool ok = it != groups.end() && it->second.size() == rows.size();
    for (size_t k = 0; ok && k < rows.size(); ++k)
      ok = csvRow(*it->second[k]).full() == rows[k].full();
    if (!ok) {
      std::string d;
      for (auto& r : rows) d += vh::show(r.full()) + "\n";
      b.c.viol("node-rows", "rows of a dictionary word differ from the csv:\n" + d + ctx);
      return;
    }
    if (rows.size() > 1) b.c.stat("alias_nodes");
  }
}

void checkGraphviz(Bench& b, const Truth& t, const std::string& ctx) {
  core::format::GraphVizBuilder gb;
  gb.row({"canonic"});
  gb.row({"surface"});
  gb.row({"pos", "subpos"});
  core::format::GraphVizFormat fmt;
  int mb = b.ex->config().beamSize.value();
  Status s = gb.build(&fmt, mb);
  if (s) s = fmt.initialize(b.ex->analyzerPtr()->output());
  if (s) s = fmt.render(b.ex->impl()->lattice());
  if (!s) {
    b.c.viol("graphviz", msg(s) + "\n" + ctx);
    return;
  }
  std::string out = str(fmt.result());
  if (t.nb <= 3) return;
  // every node once, every beam element one edge
  auto* l = b.ex->impl()->lattice();
  int edges = 0;
  for (int x = 2; x < t.nb; ++x) {
    auto st = l->boundary(x)->starts();
    for (int i = 0; i < (int)st->nodeInfo().size(); ++i) {
      auto row = st->beamData().row(i);
      for (int k = 0; k < (int)row.size() && k < mb; ++k) {
        if (core::analysis::EntryBeam::isFake(row.at(k))) break;
        ++edges;
      }
    }
  }
  auto count = [&](const std::string& x) {
    int n = 0;
    for (size_t p = out.find(x); p != std::string::npos; p = out.find(x, p + 1)) ++n;
    return n;
  };
  for (auto& n : t.nodes) {
    std::string name = Msg() << "\nnode_" << n.first.first << "_" << n.first.second << " [shape";
    std::string alt = Msg() << " node_" << n.first.first << "_" << n.first.second << " [shape";
    if (count(name) + count(alt) != 1) {
      b.c.viol("graphviz-node", name + "\n" + ctx + "\n" + out);
      return;
    }
  }
  int arrows = count(" -> node_");
  if (arrows != edges)
    b.c.viol("graphviz-edges", Msg() << arrows << " edges instead of " << edges << "\n" << ctx);
}

std::string randComment(Rng& r) {
  if (r.chance(60)) return "";
  static const char* const cm[] = {"S-ID:1", "あ い", "x", "# y", "a\tb", "EOS"};
  return r.pick(cm);
}

void formatsCase(Ctx& c) {
  Bench b(c);
  if (!b.build()) return;
  auto conf = makeConf(c.rng, b.model);
  static const char* const seps[] = {" ", "|", "", "\xe3\x80\x80", "--"};
  conf.segmentSeparator = std::string(c.rng.pick(seps));
  if (!b.open(conf)) return;
  int ns = 6;
  for (int si = 0; si < ns; ++si) {
    std::string text = c.rng.chance(4) ? "" : randSentence(c.rng, b.w);
    std::string comment = randComment(c.rng);
    std::string ctx = b.where + "\nsentence: [" + text + "] comment [" + comment + "]\n--- dic\n" +
                      b.w.csv;
    auto types = allTypes();
    types.pop_back();
    // a development output which needs a global beam of a fixed size
#ifdef JPP_ENABLE_DEV_TOOLS
    if (conf.globalBeam.value() == 0 || conf.autoStep.defined())
      types.erase(std::find(types.begin(), types.end(), OutputType::GlobalBeamPos));
#endif
    c.rng.shuffle(types);
    bool first = true;
    Truth t;
    for (auto ty : types) {
      auto s = b.ex->setOutput(ty);
      if (!s) {
        c.viol("init-output", msg(s));
        return;
      }
      if (first) s = b.ex->analyze(text, comment);
      else s = b.ex->format()->format(*b.ex->analyzerPtr(), comment);
      if (!s) {
        c.viol("analysis-failed", msg(s) + "\n" + ctx);
        return;
      }
      if (first) {
        t = observe(*b.ex->analyzerPtr(), b.f);
        checkRows(b, t, ctx);
      }
      first = false;
      std::string out = str(b.ex->output());
      auto same = [&](const char* key, const std::string& want) {
        if (out != want)
          c.viol(key, "--- got\n" + out + "--- expected\n" + want + ctx);
      };
      int topN = conf.beamOutput.value() == -1 ? conf.beamSize.value() : conf.beamOutput.value();
      switch (ty) {
        case OutputType::Juman: same("juman", expectJuman(t, comment)); break;
        case OutputType::Morph: same("morph", expectMorph(t, comment, false)); break;
        case OutputType::FullMorph: same("full-morph", expectMorph(t, comment, true)); break;
        case OutputType::Segmentation:
          same("segment", expectSegment(t, conf.segmentSeparator.value()));
          break;
        case OutputType::Lattice: {
          int n = topN;
          if (b.ex->impl()->cfg().autoBeamStep > 0) n = b.ex->impl()->autoBeamSizes();
          // an output made of lines can not be read back otherwise
          if (!b.w.multiline) checkLattice(b, t, out, comment, n, ctx);
          break;
        }
        case OutputType::JumanPb: checkJumanPb(b, t, out, comment, ctx); break;
        case OutputType::LatticePb: checkLatticePb(b, t, out, comment, topN, ctx); break;
        case OutputType::DicSubset: checkSubset(b, t, out, comment, ctx); break;
        default: break;
      }
      c.stat("outputs");
    }
    checkGraphviz(b, t, ctx);
    c.stat("paths", t.paths.size());
    c.distinct(text + b.where);
    if (c.violations) return;
  }
  c.sample(b.where);
}


// ------------------------------------------------------------------ hostile

// any values the program passes on; some of them have to be rejected
jumandic::JumanppConf hostileConf(Rng& r, const std::string& model) {
  if (r.chance(45)) return makeConf(r, model);
  jumandic::JumanppConf c;
  c.modelFile = model;
  static const int odd[] = {0, -1, -5, 1, 2, 3, 17, 64, 255, 256, 257, 700, 32767, 32768, 65535, 65536, 100000, 2000000000, -2000000000};
  auto val = [&] {
    int v = r.chance(60) ? (int)r.range(1, 12) : (int)r.pick(odd);
#if JUMANPP_USE_DEFAULT_ALLOCATION
    // no limit of memory here
    v = std::min(v, 300);
#endif
    return v;
  };
  if (r.chance(70)) c.beamSize = val();
  if (r.chance(50)) c.beamOutput = r.chance(30) ? -1 : val();
  if (r.chance(70)) c.globalBeam = r.chance(30) ? (int)r.below(2) - 1 : val();
  if (r.chance(60)) c.rightBeam = val();
  if (r.chance(60)) c.rightCheck = r.chance(40) ? (int)r.below(3) - 1 : val();
  if (r.chance(35)) {
    // base:step:max
    c.beamSize = r.chance(70) ? (int)r.range(-1, 6) : val();
    c.autoStep = r.chance(80) ? (int)r.range(-1, 5) : val();
    c.globalBeam = r.chance(80) ? (int)r.range(-1, 9) : val();
  }
  return c;
}

// can all the buffers of this configuration fit into a page of the pool?
bool modestConf(const jumandic::JumanppConf& c) {
  auto in = [](int v, int hi) { return v >= 1 && v <= hi; };
  return in(c.beamSize.value(), 16) && in(c.globalBeam.value(), 16) && in(c.rightBeam.value(), 16) &&
         in(c.rightCheck.value(), 16) && (!c.autoStep.defined() || in(c.autoStep.value(), 16));
}

void hostileCase(Ctx& c) {
  Bench b(c, 80);
  if (!b.build()) return;
  auto conf = hostileConf(c.rng, b.model);
  b.where = confText(conf);
  b.ex.reset(new Exec(conf));
  b.ex->interpreted = c.rng.chance(25);
  auto types = allTypes();
#ifdef JPP_ENABLE_DEV_TOOLS
  if (conf.globalBeam.value() <= 0 || conf.autoStep.defined())
    types.erase(std::find(types.begin(), types.end(), OutputType::GlobalBeamPos));
#endif
  auto s = b.ex->init();
  if (!s) {
    c.stat("configurations_rejected");
    if (modestConf(conf)) c.viol("model-load", msg(s) + " " + b.where);
    return;
  }
  bool modest = modestConf(conf);
  c.stat(modest ? "configurations_modest" : "configurations_odd");
  std::vector<std::string> refs = {b.w.rows[8][SURF] + b.w.rows[9][SURF], randSentence(c.rng, b.w, 3)};
  for (auto& x : refs)
    if (!vt::decode(x).valid || x.size() > 4096) x = "あ";
  std::vector<std::string> want;
  for (auto& x : refs) want.push_back(firstOutput(*b.ex, x));
  int n = 8;
  for (int i = 0; i < n; ++i) {
    std::string text = hostileText(c.rng, b.w);
    // quadratic in the size of the beam
    if (!modest && text.size() > 60 && c.rng.chance(90)) text.resize(c.rng.below(60));
    std::string ctx = b.where + "\nsentence: [" + text + "] (" + std::to_string(text.size()) + " bytes)\n--- dic\n" + b.w.csv;
    int nf = 1 + (int)c.rng.below(3);
    bool analyzed = false;
    for (int k = 0; k < nf; ++k) {
      auto ty = c.rng.pick(types);
      // describes every feature of every connection
      if (ty == OutputType::FullLatticeDump && (text.size() > 120 || (!modest && text.size() > 20)))
        ty = OutputType::Lattice;
      auto so = b.ex->setOutput(ty);
      if (!so) {
        c.viol("init-output", msg(so));
        return;
      }
      ExactBuffer buf(text);
      if (!analyzed || ty == OutputType::FullLatticeDump) s = b.ex->analyze(buf.piece(), "cmt");
      else s = b.ex->format()->format(*b.ex->analyzerPtr(), "cmt");
      if (!s) break;
      analyzed = true;
      (void)b.ex->output().size();
    }
    bool ok = bool(s);
    auto d = vt::decode(text);
    c.stat(ok ? "analysed" : "rejected");
    if (ok && !d.valid) c.viol("malformed-accepted", ctx);
    if (ok && text.size() > 4096) c.viol("overlong-accepted", ctx);
    if (!ok && modest && d.valid && text.size() <= 4096)
      c.viol("valid-rejected", msg(s) + "\n" + ctx);
    if (!ok && s.message().size() == 0) c.viol("no-error-message", ctx);
    c.distinct(text + b.where);
    if (c.rng.chance(50)) {
      auto so = b.ex->setOutput(OutputType::Juman);
      size_t ri = c.rng.below(refs.size());
      auto got = firstOutput(*b.ex, refs[ri]);
      if (!so || got != want[ri])
        c.viol("disturbed", "--- got\n" + got + "--- before\n" + want[ri] + "reference [" + refs[ri] + "] after\n" + ctx);
      c.stat("reference_checks");
    }
    if (c.violations) return;
  }
  c.sample(b.where);
}

#ifdef VERIF_ASAN
// one run of characters of the same class
void memoryCase(Ctx& c) {
  static const char* const units[] = {"a", "カ", "漢", "あ", "ー", "っ", "1", "。", "カー", "a1", "漢字", "。ア"};
  const char* unit = units[c.idx % (sizeof(units) / sizeof(units[0]))];
  Bench b(c, 30);
  if (!b.build()) return;
  jumandic::JumanppConf conf;
  conf.modelFile = b.model;
  if (!b.open(conf)) return;
  int n = 300;
  std::string text;
  for (int i = 0; i < n; ++i) text += unit;
  size_t before = __sanitizer_get_current_allocated_bytes();
  auto out = firstOutput(*b.ex, text);
  if (out.substr(0, 3) == "ERR") {
    c.viol("valid-rejected", out + "\n" + text);
    return;
  }
  size_t used = __sanitizer_get_current_allocated_bytes() - before;
  c.stat("memory_mb", used >> 20);
  c.distinct(text);
  // 4096 bytes are accepted: a square of this would be 13 times more
  if (used > (size_t)64 << 20) c.viol(std::string("memory-of-runs:") + unit, Msg() << (used >> 20) << " MB for " << n << " x [" << unit << "], grows with the third power of the length");
}

#endif

// any bytes through the reader of annotated sentences
void hostilePexCase(Ctx& c) {
  Bench b(c, 60);
  if (!b.build()) return;
  if (!b.open(makeConf(c.rng, b.model))) return;
  std::string ref = b.w.rows[8][SURF] + b.w.rows[9][SURF];
  std::string want = firstOutput(*b.ex, ref);
  core::input::PexStreamReader rdr;
  auto s = rdr.initialize(b.ex->core(), '&');
  if (!s) {
    c.viol("pex-init", msg(s));
    return;
  }
  static const char* const bits[] = {"\t", "\n", "\n\n", "&", "# ", "#", ":", "\"", "\"\"", "\\", "\tpos:名詞", "\tpos:", "\tsubpos:普通名詞", "\tbaseform:", "\tconjtype:*", "\tnope:x", "\r", "\r\n", "  ", ",", "\t\t", "\n\t", "\tsurface:x", "&&", "\xff", "\xe3", "\xe3\x81"};
  for (int i = 0; i < 6; ++i) {
    std::string text;
    int n = (int)c.rng.skewed(24);
    for (int k = 0; k < n; ++k) {
      int z = (int)c.rng.below(100);
      if (z < 45) text += c.rng.pick(bits);
      else if (z < 80) text += b.w.rows[8 + c.rng.below(b.w.rows.size() - 8)][SURF];
      else if (z < 85) text += hostileText(c.rng, b.w);
      else if (z < 88) text += std::string(1, '\0');
      else text += vt::randomChar(c.rng);
    }
    std::istringstream in(text);
    std::string ctx = b.where + "\ntext: [" + text + "]\n--- dic\n" + b.w.csv;
    int rounds = 0;
    while (in.good() && in.peek() != EOF) {
      if (++rounds > 100 + (int)text.size()) {
        c.viol("pex-endless", ctx);
        return;
      }
      s = rdr.readExample(&in);
      if (!s) {
        c.stat("rejected");
        continue;
      }
      s = rdr.analyzeWith(b.ex->analyzerPtr());
      if (!s) {
        c.stat("rejected");
        continue;
      }
      s = b.ex->format()->format(*b.ex->analyzerPtr(), rdr.comment());
      if (!s) c.viol("pex-format", msg(s) + "\n" + ctx);
      c.stat("analysed");
    }
    c.distinct(text);
    auto got = firstOutput(*b.ex, ref);
    if (got != want)
      c.viol("pex-disturbed", "--- got\n" + got + "--- before\n" + want + ctx);
    if (c.violations) return;
  }
  c.sample(b.where);
}

}  // namespace

int main(int argc, const char** argv) {
  return vh::run(argc, argv,
                 {{"formats", formatsCase},
#ifdef VERIF_ASAN
                  {"memory", memoryCase},
#endif
                  {"hostile", hostileCase},
                  {"hostile_pex", hostilePexCase}});
}
