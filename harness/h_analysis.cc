// Random specifications and dictionaries, analysed and compared with the
// reference model of vcore.h.
#include "vcore.h"

#include "core/analysis/extra_nodes.h"
#include "core/impl/feature_debug.h"
#include "core/input/pex_stream_reader.h"
#include "core/proto/lattice_dump_output.h"
#include "lattice_dump.pb.h"

using namespace vc;
using vh::Ctx;
using vh::Msg;

namespace {

enum Check { SEG = 1, DICC = 2, UNKC = 4, SCORE = 8, BEAM = 16, DUMP = 32 };

std::string vis(std::string s) {
  for (auto& c : s)
    if (c == 3 || c == 4) c = '/';
    else if (c == 1) c = ';';
    else if (c == 2) c = '~';
  return s;
}

struct Conf {
  int beam = 5;
  AnalyzerConfig a;
  std::string text() const {
    return Msg() << "beam=" << beam << " gbeam=" << a.globalBeamSize << " rcheck="
                 << a.rightGbeamCheck << " rsize=" << a.rightGbeamSize << " auto="
                 << a.autoBeamBase << "/" << a.autoBeamStep << "/" << a.autoBeamMax
                 << " page=" << a.pageSize;
  }
};

Conf randConf(vh::Rng& r, bool wide) {
  Conf c;
  static const size_t pages[] = {1 << 16, 1 << 18, 4 << 20};
  c.a.pageSize = r.pick(pages);
  if (wide) {
    c.beam = 64;
    return c;
  }
  c.beam = 1 + (int)r.skewed(7);
  if (r.chance(60)) {
    c.a.globalBeamSize = 1 + (int)r.skewed(9);
    if (r.chance(50)) {
      c.a.rightGbeamCheck = 1 + (int)r.below(4);
      c.a.rightGbeamSize = 1 + (int)r.below(5);
    }
  }
  if (r.chance(15)) {
    c.a.autoBeamStep = 1 + (int)r.below(5);
    c.a.autoBeamBase = 1 + (int)r.below(4);
    c.a.autoBeamMax = c.a.autoBeamBase + (int)r.below(6);
  }
  return c;
}

struct Node {
  int b, i, start, end;
  bool special = false;  // BOS, EOS
  EntryPtr ptr = EntryPtr::Invalid();
  std::string canon;
  std::vector<int> ph;
  int cand = -1;
  bool ambiguous = false;
  std::vector<uint64_t> pats;
};

struct Obs {
  std::vector<std::vector<Node>> at;  // by boundary
  int nb = 0;
};

class Checker {
 public:
  Ctx& c;
  Env& env;
  const RefModel& ref;
  int what;
  std::string where;
  VAnalyzer* an = nullptr;
  Sent t;
  Obs obs;
  std::vector<Cand> cands;
  std::vector<int> phIdx;
  const spec::AnalysisSpec& cs;
  std::map<std::string, int> dicIdx;
  std::map<std::pair<std::string, std::string>, int> ptrOf;
  std::map<std::pair<std::string, int>, std::string> valOf;
  int collisions = 0;

  Checker(Ctx& c, Env& e, const RefModel& r, int what)
      : c(c), env(e), ref(r), what(what), cs(e.restored.spec) {
    for (auto& n : ref.phNames) {
      int idx = -1;
      for (auto& p : cs.features.primitive)
        if (p.name == n && p.kind == spec::PrimitiveFeatureKind::Provided) idx = p.references[0];
      phIdx.push_back(idx);
    }
    for (auto& f : cs.dictionary.fields) dicIdx[f.name] = f.dicIndex;
  }

  std::string ctx() const {
    std::string unk;
    return Msg() << where << "\nsentence: " << t.text << "\n--- spec\n"
                 << specDump() << "--- dic\n" << env.csv;
  }

  std::string specDump() const {
    vh::Rng r(1);
    std::map<std::string, std::string> files;
    std::string s = vs::specText(env.w.spec, r, &files);
    for (auto& f : files) s += "# " + f.first + ": " + f.second + "\n";
    for (auto& u : env.w.spec.unks)
      if (u.low) s += "# low priority: " + u.name + "\n";
    return s;
  }

  bool observe() {
    auto l = an->lattice();
    auto& om = an->output();
    obs = Obs{};
    obs.nb = (int)l->createdBoundaryCount();
    if (obs.nb != t.n() + 3) {
      c.viol("boundaries", Msg() << "boundaries " << obs.nb << " for " << t.n()
                                 << " characters\n" << ctx());
      return false;
    }
    obs.at.resize(obs.nb);
    Reader rd(env.w.spec, om, c);
    for (int b = 0; b < obs.nb; ++b) {
      auto bnd = l->boundary(b);
      auto infos = bnd->starts()->nodeInfo();
      for (int i = 0; i < (int)infos.size(); ++i) {
        Node n;
        n.b = b;
        n.i = i;
        n.start = infos.at(i).start();
        n.end = infos.at(i).end();
        n.ptr = infos.at(i).entryPtr();
        n.special = b < 2 || b == obs.nb - 1;
        if (!n.special) {
          if (n.start != b - 2 || n.end <= n.start || n.end > t.n()) {
            c.viol("node-span", Msg() << "node " << b << ":" << i << " has span " << n.start
                                      << "-" << n.end << "\n" << ctx());
            return false;
          }
          NodeWalker w;
          if (!om.locate(LatticeNodePtr::make(b, i), &w)) {
            c.viol("locate", Msg() << "no data for node " << b << ":" << i << "\n" << ctx());
            return false;
          }
          n.canon = std::to_string(n.start) + "-" + std::to_string(n.end) +
                    (n.ptr.isSpecial() ? "U" : "D") + rd.rows(w);
          if (n.ptr.isSpecial())
            for (int p : phIdx) n.ph.push_back(p < 0 ? 0 : om.valueOfUnkPlaceholder(n.ptr, p));
        }
        obs.at[b].push_back(n);
      }
    }
    // the lists of ending nodes must agree with the nodes
    std::map<std::pair<int, int>, int> ends;
    for (int b = 0; b < obs.nb; ++b)
      for (auto& p : l->boundary(b)->ends()->nodePtrs()) {
        if (!ends.emplace(std::make_pair((int)p.boundary, (int)p.position), b).second) {
          c.viol("ends-twice", Msg() << "node " << p.boundary << ":" << p.position
                                     << " ends twice\n" << ctx());
          return false;
        }
      }
    size_t total = 0;
    for (auto& v : obs.at) total += v.size();
    if (ends.size() + 1 != total) {
      c.viol("ends-count", Msg() << "nodes " << total << ", ending nodes " << ends.size() << "\n" << ctx());
      return false;
    }
    for (auto& v : obs.at)
      for (auto& n : v) {
        if (n.b == obs.nb - 1) continue;
        auto it = ends.find({n.b, n.i});
        int want = n.b == 0 ? 1 : n.b == 1 ? 2 : n.end + 2;
        if (it == ends.end() || it->second != want) {
          c.viol("ends-place", Msg() << "node " << n.b << ":" << n.i << " ends at the wrong place\n" << ctx());
          return false;
        }
      }
    c.stat("nodes_observed", total);
    return true;
  }

  // pairs nodes with reference candidates; reports differences if asked to
  bool match() {
    std::map<std::string, std::vector<int>> rm;
    std::map<std::string, std::vector<Node*>> om;
    for (int i = 0; i < (int)cands.size(); ++i) rm[ref.canon(cands[i], t)].push_back(i);
    for (auto& v : obs.at)
      for (auto& n : v)
        if (!n.special) om[n.canon].push_back(&n);
    bool all = true;
    auto report = [&](bool unk, const std::string& key, const std::string& canon) {
      all = false;
      if (what & (unk ? UNKC : DICC))
        c.viol((unk ? "unk-" : "dic-") + key, vis(canon) + "\n" + ctx());
    };
    for (auto& r : rm) {
      bool unk = cands[r.second[0]].unk;
      size_t have = om.count(r.first) ? om[r.first].size() : 0;
      if (have < r.second.size()) {
        std::string ty = unk ? std::string(1, ref.s.unks[cands[r.second[0]].unkIdx].type) : "";
        report(unk, have ? "missing-copy" : "missing" + ty, r.first);
      }
      if (have > r.second.size()) report(unk, "duplicate", r.first);
    }
    for (auto& o : om)
      if (!rm.count(o.first)) report(o.second[0]->ptr.isSpecial(), "extra", o.first);
    // placeholders
    for (auto& o : om) {
      auto it = rm.find(o.first);
      if (it == rm.end()) continue;
      std::vector<int> free = it->second;
      auto ok = [&](const Node& n, const Cand& k) {
        if (!k.unk) return true;
        for (size_t p = 0; p < phIdx.size(); ++p) {
          auto f = k.ph.find(ref.phNames[p]);
          int v = n.ph[p];
          if (f == k.ph.end() ? v != 0 : !f->second.count(v)) return false;
        }
        return true;
      };
      // nodes with few possibilities first
      std::vector<Node*> ns = o.second;
      auto poss = [&](Node* n) {
        int k = 0;
        for (int x : it->second) k += ok(*n, cands[x]);
        return k;
      };
      std::stable_sort(ns.begin(), ns.end(), [&](Node* a, Node* b) { return poss(a) < poss(b); });
      for (auto n : ns) {
        for (auto f = free.begin(); f != free.end(); ++f)
          if (ok(*n, cands[*f])) {
            n->cand = *f;
            free.erase(f);
            break;
          }
        if (n->cand < 0 && ns.size() <= it->second.size()) {
          std::string v;
          for (size_t p = 0; p < phIdx.size(); ++p)
            v += " " + ref.phNames[p] + "=" + std::to_string(n->ph[p]);
          all = false;
          if (what & UNKC)
            c.viol("unk-placeholder" +
                       std::string(1, ref.s.unks[cands[it->second[0]].unkIdx].type),
                   vis(o.first) + v + "\n" + ctx());
        }
      }
      // same looks, different hidden flags: cannot tell which is which
      if (it->second.size() > 1) {
        for (auto f : ref.usedMatch) {
          bool m0 = ref.matches(cands[it->second[0]].src, *f);
          for (int x : it->second)
            if (ref.matches(cands[x].src, *f) != m0)
              for (auto n : ns) n->ambiguous = true;
        }
      }
    }
    c.stat("candidates_compared", cands.size());
    return all;
  }

  // ------------------------------------------------------------ features

  std::vector<std::vector<std::string>> patNames;
  std::vector<std::vector<int>> ngramPats;  // [t0, t1, t2]

  bool checkCompiledNgrams() {
    auto& f = cs.features;
    for (auto& p : f.pattern) {
      patNames.emplace_back();
      for (int r : p.references) patNames.back().push_back(f.computation.at(r).name);
    }
    std::multiset<std::vector<std::set<std::string>>> want, got;
    for (auto& n : ref.s.ngrams) {
      std::vector<std::set<std::string>> k;
      for (auto& x : n.t) k.emplace_back(x.begin(), x.end());
      want.insert(k);
    }
    for (auto& n : f.ngram) {
      std::vector<std::set<std::string>> k;
      for (int r : n.references) k.emplace_back(patNames.at(r).begin(), patNames.at(r).end());
      got.insert(k);
      ngramPats.push_back(std::vector<int>(n.references.begin(), n.references.end()));
    }
    if (want != got) {
      c.viol("ngram-set", "compiled n-grams differ from the specification\n" + ctx());
      return false;
    }
    return true;
  }

  uint64_t prim(const Node& n, const util::ArraySlice<i32>& entry, const vs::Feature& f) {
    bool eos = n.b == obs.nb - 1;
    switch (f.kind) {
      case vs::Placeholder: {
        if (!n.ptr.isSpecial() || eos) return 0;
        for (size_t p = 0; p < phIdx.size(); ++p)
          if (ref.phNames[p] == f.name) return (uint32_t)n.ph[p];
        return 0;
      }
      case vs::NumBytes:
      case vs::NumCps: {
        if (eos) return 0;
        if (f.kind == vs::NumCps && f.field == ref.tf.name) return n.end - n.start;
        auto& k = cands[n.cand];
        std::string v = k.over.count(f.field) ? t.sub(n.start, n.end) : ref.val(k.src, f.field);
        return f.kind == vs::NumBytes ? v.size() : vt::decode(v).cps.size();
      }
      case vs::Cp:
      case vs::CpType: {
        if (f.kind == vs::CpType && f.off == 0) {
          uint64_t v = 0;
          for (int i = n.start; i < n.end; ++i) v |= (uint32_t)t.cls[i];
          return v;
        }
        int p = f.off > 0 ? n.end + f.off - 1 : n.start + f.off;
        if (p < 0 || p >= t.n()) return f.kind == vs::Cp ? ~0ull : 0;
        return f.kind == vs::Cp ? t.cps[p] : (uint32_t)t.cls[p];
      }
      case vs::Match:
        if (eos) {
          // raw value of the marker seen through the bit selector
          for (auto& p : cs.features.primitive)
            if (p.name == f.name && p.kind == spec::PrimitiveFeatureKind::SingleBit)
              return (0x80000002u >> p.references[1]) & 1;
          return 0;
        }
        return ref.matches(cands[n.cand].src, f);
    }
    return 0;
  }

  bool patterns(Node& n) {
    if (!n.pats.empty()) return true;
    if (n.b < 2) {
      n.pats.assign(patNames.size(), 0x80000000u);
      return true;
    }
    bool eos = n.b == obs.nb - 1;
    if (!eos && (n.cand < 0 || n.ambiguous)) return false;
    auto row = an->lattice()->boundary(n.b)->starts()->entryData();
    util::ArraySlice<i32> entry = row.row(n.i);
    auto fieldVal = [&](const std::string& name) -> uint64_t {
      if (eos) return 0x80000002u;
      return (uint32_t)entry.at(dicIdx.at(name));
    };
    if (!eos) {
      // equal values <=> equal pointers
      auto& k = cands[n.cand];
      for (auto& u : ref.used) {
        std::string v = k.over.count(u) ? "\x05" + t.sub(n.start, n.end) : ref.val(k.src, u);
        int p = entry.at(dicIdx.at(u));
        auto a = ptrOf.emplace(std::make_pair(u, v), p);
        auto b = valOf.emplace(std::make_pair(u, p), v);
        if (k.over.count(u) && a.first->second == p && b.first->second != v &&
            b.first->second[0] == 5) {
          // surfaces are hashed, so different ones can meet
          auto mask = [](std::string x) {
            size_t blocks = (x.size() - 1) / 16;
            for (size_t q = 0; q < blocks * 16; ++q)
              if (q % 16 >= 8) x[q + 1] = 0;
            return x;
          };
          if (mask(v) == mask(b.first->second) && (what & SCORE))
            c.viol("surface-hash-ignores-bytes",
                   Msg() << v.substr(1) << " and " << b.first->second.substr(1) << " have hash " << p);
          else if (mask(v) != mask(b.first->second) && ++collisions == 2)
            c.viol("surface-hash", Msg() << v.substr(1) << " and " << b.first->second.substr(1)
                                         << " have hash " << p);
          continue;
        }
        if (a.first->second != p || b.first->second != v) {
          c.viol("value-identity", Msg() << "field " << u << " value " << v << " pointer " << p
                                         << "\n" << ctx());
          return false;
        }
      }
    }
    for (size_t p = 0; p < patNames.size(); ++p) {
      Hash h;
      h.mix(p).mix(patNames[p].size()).mix(0x7a11ed00000000ULL);
      for (auto& name : patNames[p]) {
        auto f = ref.s.feature(name);
        if (!f) {
          h.mix(fieldVal(name));
        } else if (f->kind == vs::Match && !f->thenF.empty()) {
          for (auto& x : prim(n, entry, *f) ? f->thenF : f->elseF) h.mix(fieldVal(x));
        } else {
          h.mix(prim(n, entry, *f));
        }
      }
      n.pats.push_back(h.st);
    }
    return true;
  }

  bool score(Node& t2, Node& t1, Node& t0, double* out) {
    if (!patterns(t0) || !patterns(t1) || !patterns(t2)) return false;
    double s = 0;
    uint32_t mask = (uint32_t)env.weights.size() - 1;
    for (size_t i = 0; i < ngramPats.size(); ++i) {
      auto& g = ngramPats[i];
      Hash h;
      static const uint64_t tag[] = {0x5123a31421fULL, 0x5123a68442fULL, 0x51239ab41f1fULL};
      h.mix(g.size() + 2).mix(i).mix(tag[g.size() - 1]);
      h.mix(t0.pats[g[0]]);
      if (g.size() > 1) h.mix(t1.pats[g[1]]);
      if (g.size() > 2) h.mix(t2.pats[g[2]]);
      s += env.weights[(uint32_t)h.st & mask];
    }
    *out = s;
    return true;
  }

  Node& nodeOf(const ConnectionPtr& p) { return obs.at[p.boundary][p.right]; }

  static const ConnectionBeamElement* elem(const ConnectionPtr* p) {
    return reinterpret_cast<const ConnectionBeamElement*>(p);
  }

  void checkScores() {
    auto l = an->lattice();
    for (int b = 2; b < obs.nb; ++b) {
      auto starts = l->boundary(b)->starts();
      for (int i = 0; i < (int)obs.at[b].size(); ++i) {
        auto beam = starts->beamData().row(i);
        for (auto& e : beam) {
          if (EntryBeam::isFake(e)) break;
          double loc;
          Node &t0 = obs.at[b][i], &t1 = nodeOf(*e.ptr.previous);
          Node& t2 = e.ptr.previous->previous ? nodeOf(*e.ptr.previous->previous) : obs.at[0][0];
          if (!score(t2, t1, t0, &loc)) {
            c.stat("scores_skipped");
            continue;
          }
          c.stat("scores_checked");
          double prev = elem(e.ptr.previous)->totalScore;
          if ((double)e.totalScore != prev + loc) {
            c.viol("total-score",
                   Msg() << "node " << b << ":" << i << " total " << e.totalScore << " previous "
                         << prev << " features " << loc << "\n" << where << ctx());
            return;
          }
          double cell = l->boundary(b)->scores()->forPtr(e.ptr).at(0);
          if (cell != loc) {
            c.viol("score-cell", Msg() << "node " << b << ":" << i << " stored " << cell
                                       << " features " << loc << "\n" << ctx());
            return;
          }
        }
      }
    }
  }

  // ------------------------------------------------------------ explanations

  // how a feature of a node is shown, empty = not specified
  bool showPrim(Node& n, const std::string& name, std::string* out) {
    bool eos = n.b == obs.nb - 1;
    auto row = an->lattice()->boundary(n.b)->starts()->entryData();
    util::ArraySlice<i32> entry = row.row(n.i);
    auto f = ref.s.feature(name);
    if (!f) {
      if (eos) *out += "EOS";
      else {
        auto& k = cands[n.cand];
        *out += k.over.count(name) ? t.sub(n.start, n.end) : ref.val(k.src, name);
      }
      return true;
    }
    uint64_t v = prim(n, entry, *f);
    switch (f->kind) {
      case vs::Placeholder:
      case vs::CpType: {
        char buf[32];
        snprintf(buf, sizeof buf, "%llX", (unsigned long long)v);
        *out += buf;
        return true;
      }
      case vs::Cp: *out += std::to_string((uint32_t)v); return true;
      case vs::Match: {
        *out += std::to_string(v);
        if (f->thenF.empty()) return true;
        *out += ":[";
        bool first = true;
        for (auto& x : v ? f->thenF : f->elseF) {
          if (!first) *out += ", ";
          first = false;
          if (!showPrim(n, x, out)) return false;
        }
        *out += "]";
        return true;
      }
      default: *out += std::to_string(v); return true;
    }
  }

  bool showPattern(Node& n, int p, std::string* out) {
    if (n.b < 2) return false;
    if (n.b != obs.nb - 1 && (n.cand < 0 || n.ambiguous)) return false;
    *out += "{";
    bool first = true;
    for (auto& name : patNames[p]) {
      if (!first) *out += "-";
      first = false;
      if (!showPrim(n, name, out)) return false;
    }
    *out += "}";
    return true;
  }

  template <typename F>  // F: index, patterns (or null), repr, raw, masked, weight
  bool checkFeature(const F& f, size_t i, Node& t2, Node& t1, Node& t0, const std::string& w2) {
    auto& g = ngramPats[i];
    uint32_t mask = (uint32_t)env.weights.size() - 1;
    Hash h;
    static const uint64_t tag[] = {0x5123a31421fULL, 0x5123a68442fULL, 0x51239ab41f1fULL};
    h.mix(g.size() + 2).mix(i).mix(tag[g.size() - 1]);
    h.mix(t0.pats[g[0]]);
    if (g.size() > 1) h.mix(t1.pats[g[1]]);
    if (g.size() > 2) h.mix(t2.pats[g[2]]);
    uint32_t raw = (uint32_t)h.st;
    auto bad = [&](const char* key, const std::string& d) {
      c.viol(key, Msg() << "feature " << i << " of " << t0.b << ":" << t0.i << ": " << d << "\n" << w2 << ctx());
      return false;
    };
    if (f.index != (int)i) return bad("feature-index", std::to_string(f.index));
    if (f.raw != raw || f.masked != (raw & mask))
      return bad("feature-hash", Msg() << f.raw << "/" << f.masked << " expected " << raw);
    if (f.weight != env.weights[raw & mask])
      return bad("feature-weight", Msg() << f.weight << " expected " << env.weights[raw & mask]);
    std::string want = std::to_string(i) + "#";
    bool known = true;
    if (g.size() > 2) known = known && showPattern(t2, g[2], &want);
    if (g.size() > 1) known = known && showPattern(t1, g[1], &want);
    known = known && showPattern(t0, g[0], &want);
    if (!known) {
      c.stat("texts_unspecified");
      // the beginning has to agree in any case
      want = std::to_string(i) + "#{";
      if (f.repr.substr(0, want.size()) != want) return bad("feature-text", f.repr);
      return true;
    }
    if (f.repr != want) return bad("feature-text", f.repr + " expected " + want);
    c.stat("texts_checked");
    return true;
  }

  struct Feat {
    int index;
    std::string repr;
    uint32_t raw, masked;
    float weight;
  };

  std::unique_ptr<output::LatticeDumpOutput> dumper;
  features::FeaturesDebugger debugger;

  bool initDump() {
    dumper.reset(new output::LatticeDumpOutput{true, c.rng.chance(50)});
    auto st = dumper->initialize(an, &env.sdef.feature->weights());
    if (!st) {
      c.viol("dump-init", msg(st) + "\n" + ctx());
      return false;
    }
    debugger = features::FeaturesDebugger();
    st = debugger.initialize(an, env.sdef.feature->weights());
    if (!st) {
      c.viol("debugger-init", msg(st) + "\n" + ctx());
      return false;
    }
    return true;
  }

  std::string valueText(const FieldValue& v, const vs::Field& f) {
    switch (f.type) {
      case 'S':
        if (v.value_case() != FieldValue::kString) return "?";
        return v.string();
      case 'I':
        if (v.value_case() != FieldValue::kInt) return "?";
        return std::to_string(v.int_());
      case 'L': {
        if (v.value_case() != FieldValue::kStringList) return "?";
        return joinSorted(Strs(v.string_list().values().begin(), v.string_list().values().end()));
      }
      default: {
        if (v.value_case() != FieldValue::kKvlist) return "?";
        Strs x;
        for (auto& kv : v.kvlist().values()) x.push_back(kv.key() + "\x02=" + kv.value());
        return joinSorted(x);
      }
    }
  }

  // a key without a value and a key with an empty value look the same
  static std::string noValue(std::string s) {
    for (size_t i = 0; (i = s.find("\x02-", i)) != std::string::npos; ++i) s[i + 1] = '=';
    return s;
  }

  void checkDump(const std::string& comment) {
    std::string w2;
    auto bad = [&](const char* key, const std::string& d) {
      c.viol(key, d + "\n" + w2 + ctx());
    };
    Analyzer wrap;
    auto st = wrap.initialize(an, &env.sdef);
    if (!st) return bad("wrap", msg(st));
    if (!(st = dumper->format(wrap, comment))) return bad("dump-format", msg(st));
    const LatticeDump* dp = dumper->objectPtr();
    auto& d = *dp;
    if (d.surface() != t.text || d.comment() != comment)
      return bad("dump-text", d.surface() + " / " + d.comment());
    {
      Strs names(cs.dictionary.fields.size());
      for (auto& f : cs.dictionary.fields)
        names[f.dicIndex >= 0 ? f.dicIndex : (int)cs.features.numDicFeatures + ~f.dicIndex] = f.name;
      Strs got(d.field_names().begin(), d.field_names().end());
      if (names != got) return bad("dump-fields", "names of fields differ");
      if (d.surface_idx() < 0 || d.surface_idx() >= (int)got.size() || got[d.surface_idx()] != ref.tf.name)
        return bad("dump-surface-index", std::to_string(d.surface_idx()));
    }
    auto l = an->lattice();
    if (t.n() == 0) {
      if (d.boundaries_size() != 0) bad("dump-empty", "boundaries of an empty sentence");
      return;
    }
    if (d.boundaries_size() != obs.nb - 2) return bad("dump-boundaries", std::to_string(d.boundaries_size()));
    // ranks
    std::map<const void*, std::vector<int>> rank;
    std::map<std::pair<int, int>, std::vector<int>> nodeRank;
    {
      auto eos = l->boundary(obs.nb - 1)->starts()->beamData().row(0);
      int r = 0;
      for (auto& e : eos) {
        if (EntryBeam::isFake(e)) break;
        for (const ConnectionPtr* p = &e.ptr; p->boundary >= 2; p = p->previous) {
          rank[p].push_back(r);
          nodeRank[{p->boundary, p->right}].push_back(r);
        }
        ++r;
      }
    }
    for (int b = 2; b < obs.nb; ++b) {
      auto& db = d.boundaries(b - 2);
      if (db.nodes_size() != (int)obs.at[b].size())
        return bad("dump-nodes", Msg() << "boundary " << b << " has " << db.nodes_size() << " nodes instead of " << obs.at[b].size());
      auto starts = l->boundary(b)->starts();
      for (int i = 0; i < db.nodes_size(); ++i) {
        auto& dn = db.nodes(i);
        Node& n = obs.at[b][i];
        bool eos = b == obs.nb - 1;
        w2 = Msg() << "node " << b << ":" << i << " " << where << "\n";
        if (dn.entry_ptr() != n.ptr.rawValue()) return bad("dump-entry", std::to_string(dn.entry_ptr()));
        if (dn.surface() != (eos ? "EOS" : t.sub(n.start, n.end))) return bad("dump-surface", dn.surface());
        if (!eos && dn.length() != n.end - n.start) return bad("dump-length", std::to_string(dn.length()));
        auto nr = nodeRank.find({b, i});
        std::vector<int> gr(dn.ranks().begin(), dn.ranks().end());
        if (gr != (nr == nodeRank.end() ? std::vector<int>() : nr->second)) return bad("dump-ranks", "ranks of a node");
        if (!eos) {
          // all rows of the node
          Strs rows;
          auto add = [&](const LatticeDumpNode& x) {
            std::string o;
            for (auto& f : ref.s.fields) {
              int k = -1;
              for (int q = 0; q < d.field_names_size(); ++q)
                if (d.field_names(q) == f.name) k = q;
              o += (k >= 0 && k < x.values_size() ? valueText(x.values(k), f) : "?") + "\x04";
            }
            rows.push_back(o);
          };
          add(dn);
          for (auto& v : dn.variants()) add(v);
          std::sort(rows.begin(), rows.end());
          std::string o = std::to_string(n.start) + "-" + std::to_string(n.end) + (n.ptr.isSpecial() ? "U" : "D");
          for (auto& r : rows) o += "|" + r;
          // the order of rows can depend on the marks of absent values
          if (o.size() != n.canon.size() || noValue(n.canon) != o) {
            std::string q = noValue(n.canon);
            Strs parts = splitBy(q, "|");
            std::sort(parts.begin() + 1, parts.end());
            Strs mine = splitBy(o, "|");
            std::sort(mine.begin() + 1, mine.end());
            if (parts != mine) return bad("dump-values", vis(o) + " expected " + vis(q));
          }
          c.stat("node_values");
        }
        bool pats = patterns(n);
        if (pats) {
          if (dn.patterns_size() != (int)n.pats.size()) return bad("dump-patterns", std::to_string(dn.patterns_size()));
          for (size_t p = 0; p < n.pats.size(); ++p)
            if (dn.patterns((int)p) != n.pats[p]) {
              // unreachable nodes are not analysed
              bool reach = !EntryBeam::isFake(starts->beamData().row(i).at(0));
              if (reach) return bad("dump-pattern", Msg() << "pattern " << p << " is " << dn.patterns((int)p) << " expected " << n.pats[p]);
            }
        }
        auto beam = starts->beamData().row(i);
        int k = 0;
        for (auto& e : beam) {
          if (EntryBeam::isFake(e)) break;
          if (k >= dn.beams_size()) return bad("dump-beam-missing", std::to_string(k));
          auto& db2 = dn.beams(k);
          auto p0 = &e.ptr;
          auto p1 = p0->previous;
          auto p2 = p1->previous;
          Node& t1 = nodeOf(*p1);
          Node& t2 = p2 ? nodeOf(*p2) : obs.at[0][0];
          if (db2.nodes_size() != 3) return bad("dump-beam-nodes", "not three nodes");
          auto is = [&](int q, int bb, int nn, int be) {
            auto& x = db2.nodes(q);
            return x.boundary() == bb && x.node() == nn && (be < 0 || x.beam() == be);
          };
          if (!is(2, b, i, k) || !is(1, t1.b, t1.i, p0->beam) || !is(0, t2.b, t2.i, p2 ? p1->beam : -1))
            return bad("dump-beam-nodes", Msg() << "beam " << k << " refers to other nodes");
          if (db2.cum_score() != e.totalScore) return bad("dump-cum-score", std::to_string(db2.cum_score()));
          auto rk = rank.find(p0);
          std::vector<int> br(db2.ranks().begin(), db2.ranks().end());
          if (br != (rk == rank.end() ? std::vector<int>() : rk->second)) return bad("dump-beam-ranks", "ranks of a path");
          if (db2.features_size() != (int)ngramPats.size()) return bad("dump-feature-count", std::to_string(db2.features_size()));
          double sum = 0;
          for (auto& f : db2.features()) sum += f.weight();
          if (db2.raw_scores_size() != 1 || sum != (double)db2.raw_scores(0))
            return bad("explanation-sum", Msg() << "weights add up to " << sum << " reported " << (db2.raw_scores_size() ? db2.raw_scores(0) : 0));
          double prev = elem(p1)->totalScore;
          if (prev + sum != (double)e.totalScore) return bad("explanation-total", Msg() << prev << " + " << sum << " is not " << e.totalScore);
          if (patterns(n) && patterns(t1) && patterns(t2)) {
            for (size_t q = 0; q < ngramPats.size(); ++q) {
              auto& f = db2.features((int)q);
              if (std::vector<int>(f.patterns().begin(), f.patterns().end()) != ngramPats[q])
                return bad("feature-patterns", std::to_string(q));
              Feat x{f.index(), f.repr(), f.raw_value(), f.masked_value(), f.weight()};
              if (!checkFeature(x, q, t2, t1, n, w2)) return;
            }
            c.stat("paths_explained");
          } else c.stat("paths_ambiguous");
          ++k;
        }
        if (k != dn.beams_size()) return bad("dump-beam-extra", std::to_string(dn.beams_size()));
      }
    }
    w2 = where + "\n";
    // explanations of connections which are not in any beam
    for (int q = 0; q < 4; ++q) {
      int b = 2 + (int)c.rng.below(obs.nb - 2);
      auto lefts = l->boundary(b)->ends()->nodePtrs();
      if (obs.at[b].empty() || lefts.size() == 0) continue;
      Node& t0 = obs.at[b][c.rng.below(obs.at[b].size())];
      auto lp = lefts.at(c.rng.below(lefts.size()));
      Node& t1 = obs.at[lp.boundary][lp.position];
      auto ll = l->boundary(t1.b)->ends()->nodePtrs();
      if (t1.b == 0 || ll.size() == 0) continue;
      auto lp2 = ll.at(c.rng.below(ll.size()));
      Node& t2 = obs.at[lp2.boundary][lp2.position];
      // patterns of unreachable nodes are not computed
      auto reach = [&](Node& n) {
        return n.b < 2 || !EntryBeam::isFake(l->boundary(n.b)->starts()->beamData().row(n.i).at(0));
      };
      if (!reach(t0) || !reach(t1) || !reach(t2)) continue;
      double want;
      if (!score(t2, t1, t0, &want)) continue;
      features::NgramFeatureRef r{LatticeNodePtr::make(t2.b, t2.i), LatticeNodePtr::make(t1.b, t1.i), LatticeNodePtr::make(t0.b, t0.i)};
      features::DebugFeatures df;
      if (!(st = debugger.fill(an, &df, r))) return bad("debugger-fill", msg(st));
      if (df.features.size() != ngramPats.size()) return bad("debugger-count", std::to_string(df.features.size()));
      double sum = 0;
      for (size_t i = 0; i < df.features.size(); ++i) {
        auto& f = df.features[i];
        sum += f.score;
        Feat x{f.ngramIdx, f.repr, f.rawHashCode, f.maskedHashCode, f.score};
        if (!checkFeature(x, i, t2, t1, t0, w2)) return;
      }
      if (sum != want) return bad("explanation-sum", Msg() << sum << " expected " << want);
      c.stat("connections_explained");
    }
    // the serialized form
    auto res = dumper->result();
    if (res.size() > 0) {
      size_t len = 0, sh = 0, at = 0;
      const unsigned char* u = reinterpret_cast<const unsigned char*>(res.char_begin());
      while (at < res.size()) {
        len |= (size_t)(u[at] & 127) << sh;
        sh += 7;
        if (!(u[at++] & 128)) break;
      }
      LatticeDump back;
      if (at + len != res.size() || !back.ParseFromArray(u + at, (int)len) ||
          back.SerializeAsString() != d.SerializeAsString())
        return bad("dump-serialized", "the serialized form differs");
      c.stat("dumps_serialized");
    }
    c.stat("dumps");
  }

  // ------------------------------------------------------------ segmentation

  void checkSegmentation() {
    auto l = an->lattice();
    // every path of the last beam
    auto eos = l->boundary(obs.nb - 1)->starts()->beamData().row(0);
    int k = 0;
    for (auto& e : eos) {
      if (EntryBeam::isFake(e)) break;
      ++k;
      int pos = t.n();
      const ConnectionPtr* p = e.ptr.previous;
      int steps = 0;
      while (p && p->boundary >= 2) {
        Node& n = nodeOf(*p);
        if (n.end != pos || ++steps > t.n()) {
          c.viol("path-gap", Msg() << "path " << k << " has a gap at " << pos << "\n" << ctx());
          return;
        }
        pos = n.start;
        p = p->previous;
      }
      if (pos != 0 || !p || p->boundary != 1 || !p->previous || p->previous->boundary != 0 ||
          p->previous->previous) {
        c.viol("path-start", Msg() << "path " << k << " does not reach the start: " << pos << "\n" << ctx());
        return;
      }
    }
    if (t.n() > 0 && k == 0) {
      c.viol("no-path", "no analysis\n" + ctx());
      return;
    }
    c.stat("paths_walked", k);
    // the reported result
    AnalysisPath path;
    auto st = path.fillIn(l);
    if (!st) {
      c.viol("path-status", msg(st) + "\n" + ctx());
      return;
    }
    std::string whole;
    bool surf = true;
    StringField sf;
    auto s2 = an->output().stringField(ref.tf.name, &sf);
    int pos = 0;
    const ConnectionPtr* top = nullptr;
    std::vector<const ConnectionPtr*> best;
    for (auto p = k ? eos.at(0).ptr.previous : nullptr; p && p->boundary >= 2; p = p->previous)
      best.push_back(p);
    std::reverse(best.begin(), best.end());
    size_t nchunk = 0;
    while (path.nextBoundary()) {
      ConnectionPtr ptr;
      bool first = true;
      int end = pos;
      int cnt = 0;
      int total = path.totalNodesInChunk();
      while (path.nextNode(&ptr)) {
        ++cnt;
        Node& n = nodeOf(ptr);
        if (n.start != pos) {
          c.viol("chunk-gap", Msg() << "chunk starts at " << n.start << " instead of " << pos << "\n" << ctx());
          return;
        }
        if (path.currentBoundary() != n.b) {
          c.viol("chunk-boundary", Msg() << "chunk boundary " << path.currentBoundary() << " node " << n.b << "\n" << ctx());
          return;
        }
        if (first) {
          end = n.end;
          if (nchunk >= best.size() || best[nchunk]->boundary != ptr.boundary) {
            c.viol("chunk-best", "reported path differs from the best path\n" + ctx());
            return;
          }
          NodeWalker w;
          an->output().locate(ptr.latticeNodePtr(), &w);
          w.next();
          bool over = !n.ptr.isSpecial();
          if (n.ptr.isSpecial() && n.cand >= 0) over = cands[n.cand].over.count(ref.tf.name);
          else if (n.ptr.isSpecial()) surf = false;
          if (over) whole += str(sf[w]);
          else surf = false;
        } else if (n.end != end) {
          c.viol("chunk-ends", "alternatives of one chunk end at different places\n" + ctx());
          return;
        }
        first = false;
      }
      if (cnt == 0 || cnt != total) {
        c.viol("chunk-empty", Msg() << "chunk of " << cnt << " nodes, " << total << " announced\n" << ctx());
        return;
      }
      pos = end;
      ++nchunk;
    }
    if (pos != t.n() || nchunk != best.size()) {
      c.viol("segmentation-length", Msg() << "reported " << pos << " of " << t.n() << " characters\n" << ctx());
      return;
    }
    if (surf) {
      c.stat("surfaces_joined");
      if (whole != t.text) c.viol("surface-join", "joined " + whole + "\n" + ctx());
    }
    (void)top;
  }

  // ------------------------------------------------------------ search

  struct BC {
    double score;
    int left, beam;
  };

  int beamLen(const ConnectionBeamElement* b, int max) {
    int k = 0;
    while (k < max && !EntryBeam::isFake(b[k])) ++k;
    return k;
  }

  void checkBeams(const Conf& conf, const std::string& w2) {
    auto l = an->lattice();
    auto lc = l->config();
    int B = (int)lc.beamSize;
    bool gmode = conf.a.globalBeamSize > 0;
    int G = gmode ? (int)lc.globalBeamSize : 0;
    auto bad = [&](const std::string& key, const std::string& d) {
      c.viol(key, d + "\n" + w2 + "\n" + ctx());
    };
    // expected sizes
    int expB = conf.beam, expG = conf.a.globalBeamSize;
    if (conf.a.autoBeamStep > 0) {
      expB = std::min(conf.a.autoBeamBase + t.n() / conf.a.autoBeamStep, conf.a.autoBeamMax);
      if (gmode) expG = expB;
    }
    if (B != expB || (gmode && G != expG)) {
      bad("beam-config", Msg() << "beam " << B << " global " << G);
      return;
    }
    for (int b = 2; b < obs.nb; ++b) {
      auto bnd = l->boundary(b);
      if (obs.at[b].empty()) continue;
      auto lefts = bnd->ends()->nodePtrs();
      // all continuations
      std::vector<BC> all;
      std::map<const ConnectionPtr*, BC> byPtr;
      for (int li = 0; li < (int)lefts.size(); ++li) {
        auto row = l->boundary(lefts[li].boundary)->starts()->beamData().row(lefts[li].position);
        int n = beamLen(row.data(), (int)row.size());
        for (int k = 0; k < n; ++k) {
          BC x{row.at(k).totalScore, li, k};
          all.push_back(x);
          byPtr[&row.at(k).ptr] = x;
        }
      }
      std::vector<const ConnectionPtr*> pool;
      if (gmode) {
        auto gb = bnd->ends()->globalBeam();
        std::vector<double> sc;
        for (auto& x : all) sc.push_back(x.score);
        std::sort(sc.rbegin(), sc.rend());
        size_t want = std::min<size_t>(G, sc.size());
        if (!all.empty()) {
          if (gb.size() != want) {
            bad("gbeam-size", Msg() << "global beam of " << gb.size() << " at " << b << ", expected " << want);
            return;
          }
          std::set<const ConnectionPtr*> seen;
          for (size_t i = 0; i < gb.size(); ++i) {
            if (!byPtr.count(&gb.at(i)->ptr) || !seen.insert(&gb.at(i)->ptr).second) {
              bad("gbeam-element", Msg() << "global beam element " << i << " at " << b << " is not a distinct ending path");
              return;
            }
            if (gb.at(i)->totalScore != sc[i]) {
              bad("gbeam-order", Msg() << "global beam score " << i << " at " << b << ": "
                                       << gb.at(i)->totalScore << " expected " << sc[i]);
              return;
            }
            pool.push_back(&gb.at(i)->ptr);
          }
        }
        c.stat("global_beams_checked");
      } else {
        for (auto& x : byPtr) pool.push_back(x.first);
      }
      // scores of all connections
      int N = (int)obs.at[b].size();
      std::vector<std::vector<double>> loc(N, std::vector<double>(pool.size()));
      std::vector<char> ok(N, 1);
      bool allOk = true;
      for (int i = 0; i < N; ++i)
        for (size_t p = 0; p < pool.size(); ++p) {
          Node& t1 = nodeOf(*pool[p]);
          Node& t2 = pool[p]->previous ? nodeOf(*pool[p]->previous) : obs.at[0][0];
          if (!score(t2, t1, obs.at[b][i], &loc[i][p])) {
            ok[i] = 0;
            allOk = false;
          }
        }
      // which nodes look at the whole global beam
      std::vector<int> state(N, 1);  // 1 whole, 0 head only, 2 unknown
      size_t head = pool.size();
      if (gmode && conf.a.rightGbeamCheck > 0) {
        head = std::min<size_t>({(size_t)conf.a.rightGbeamCheck, (size_t)N, pool.size()});
        int keep = std::min(conf.a.rightGbeamSize, N);
        if (keep < N) {
          if (!allOk) {
            c.stat("beams_skipped");
            continue;
          }
          std::vector<std::pair<double, int>> sum;
          for (int i = 0; i < N; ++i) {
            double s = 0;
            for (size_t p = 0; p < head; ++p) s += loc[i][p];
            sum.push_back({s, i});
          }
          std::sort(sum.begin(), sum.end(), [](auto& x, auto& y) { return x.first > y.first; });
          for (int k = 0; k < N; ++k) state[sum[k].second] = k < keep;
          double cut = sum[keep - 1].first;
          if (sum[keep].first == cut)
            for (auto& s : sum)
              if (s.first == cut) state[s.second] = 2;
        }
      }
      for (int i = 0; i < N; ++i) {
        if (!ok[i]) {
          c.stat("beams_skipped");
          continue;
        }
        auto row = bnd->starts()->beamData().row(i);
        int n = beamLen(row.data(), (int)row.size());
        auto tryUse = [&](size_t use, std::string* why) {
          std::vector<double> sc;
          for (size_t p = 0; p < use; ++p) sc.push_back(elem(pool[p])->totalScore + loc[i][p]);
          std::sort(sc.rbegin(), sc.rend());
          size_t want = std::min<size_t>(B, sc.size());
          if ((size_t)n != want) {
            *why = Msg() << "beam-size|" << n << " paths kept, expected " << want;
            return false;
          }
          std::set<const ConnectionPtr*> seen;
          for (int k = 0; k < n; ++k) {
            auto& e = row.at(k);
            size_t p = std::find(pool.begin(), pool.end(), e.ptr.previous) - pool.begin();
            auto it = byPtr.find(e.ptr.previous);
            if (p >= use || it == byPtr.end() || e.ptr.boundary != b || e.ptr.right != i ||
                e.ptr.left != it->second.left || e.ptr.beam != it->second.beam) {
              *why = Msg() << "beam-element|element " << k << " " << e << " is not a continuation";
              return false;
            }
            if (!seen.insert(e.ptr.previous).second) {
              *why = Msg() << "beam-duplicate|element " << k << " twice";
              return false;
            }
            if ((double)e.totalScore != sc[k]) {
              *why = Msg() << "beam-best|element " << k << " has " << e.totalScore
                           << ", best possible " << sc[k];
              return false;
            }
          }
          return true;
        };
        std::string why;
        bool good = state[i] == 1 ? tryUse(pool.size(), &why)
                  : state[i] == 0 ? tryUse(head, &why)
                                  : (tryUse(pool.size(), &why) || tryUse(head, &why));
        c.stat("beams_checked");
        if (!good) {
          auto k = why.find('|');
          bad(why.substr(0, k), Msg() << "node " << b << ":" << i << ": " << why.substr(k + 1));
          return;
        }
      }
    }
  }

  // wide beam: compare with all paths
  void checkExhaustive(const Conf& conf, const std::string& w2) {
    auto l = an->lattice();
    std::vector<std::vector<Node*>> endAt(t.n() + 1);
    for (int b = 2; b < obs.nb - 1; ++b)
      for (auto& n : obs.at[b]) endAt[n.end].push_back(&n);
    std::vector<double> scores;
    size_t limit = 4000;
    bool usable = true;
    // nodes of the path from the right: t0, t1
    std::function<void(Node&, Node&, double)> go = [&](Node& t0, Node& t1, double acc) {
      if (!usable) return;
      auto step = [&](Node& t2) {
        double s;
        if (!score(t2, t1, t0, &s)) {
          usable = false;
          return false;
        }
        acc += s;
        return true;
      };
      if (t1.b == 1) {
        double keep = acc;
        if (!step(obs.at[0][0])) return;
        scores.push_back(acc);
        acc = keep;
        if (scores.size() > limit) usable = false;
        return;
      }
      auto cont = [&](Node& t2) {
        double keep = acc;
        if (step(t2)) go(t1, t2, acc);
        acc = keep;
      };
      if (t1.start == 0) cont(obs.at[1][0]);
      else
        for (auto n : endAt[t1.start]) cont(*n);
    };
    Node& eos = obs.at[obs.nb - 1][0];
    for (auto n : endAt[t.n()]) go(eos, *n, 0);
    if (!usable || scores.empty()) {
      c.stat("exhaustive_skipped");
      return;
    }
    std::sort(scores.rbegin(), scores.rend());
    auto row = l->boundary(obs.nb - 1)->starts()->beamData().row(0);
    size_t n = beamLen(row.data(), (int)row.size());
    c.stat("exhaustive_sentences");
    c.stat("exhaustive_paths", scores.size());
    if (n != std::min<size_t>(conf.beam, scores.size())) {
      c.viol("nbest-count", Msg() << n << " results for " << scores.size() << " paths\n" << w2 << ctx());
      return;
    }
    // the best one is exact when no beam was cut
    bool cut = false;
    for (int b = 2; b < obs.nb - 1; ++b)
      for (int i = 0; i < (int)obs.at[b].size(); ++i) {
        auto r2 = l->boundary(b)->starts()->beamData().row(i);
        if (beamLen(r2.data(), (int)r2.size()) == conf.beam) cut = true;
      }
    if (cut) {
      c.stat("exhaustive_cut");
      if (row.at(0).totalScore > scores[0])
        c.viol("best-too-good", Msg() << row.at(0).totalScore << " > " << scores[0] << ctx());
      return;
    }
    for (size_t k = 0; k < n; ++k)
      if ((double)row.at(k).totalScore != scores[k]) {
        c.viol("nbest-score", Msg() << "result " << k << " has " << row.at(k).totalScore
                                    << ", enumeration " << scores[k] << "\n" << w2 << ctx());
        return;
      }
  }
};

bool makeEnv(Ctx& c, Env& env, vs::GenOpts o) {
  env.w = vs::genWorld(c.rng, o);
  fixWorld(env.w);
  auto st = env.build(c.rng, vh::G().tmpDir);
  if (!st) {
    c.viol("world-build", msg(st) + "\n" + env.specText + "\n--- dic\n" + env.csv);
    return false;
  }
  env.setWeights(env.makeWeights(c.rng, 6 + (int)c.rng.below(9)));
  return true;
}

// surfaces of unknown words which differ only in the second half of a
// 16 byte block of the string hash (a known finding, see DESIGN.md)
void surfaceHashCase(Ctx& c) {
  Env env;
  auto& s = env.w.spec;
  vs::Field f;
  f.name = "surface";
  f.trie = true;
  s.fields.push_back(f);
  vs::Ngram n;
  n.t.push_back({"surface"});
  s.ngrams.push_back(n);
  vs::Unk u;
  u.name = "alph";
  u.type = 'c';
  u.classNames = {"ALPH"};
  u.cls = 0x80;
  u.surfTo = {"surface"};
  s.unks.push_back(u);
  env.w.dic.rows = {{"T"}, {"b"}};
  auto st = env.build(c.rng, vh::G().tmpDir);
  if (!st) {
    c.viol("world-build", msg(st));
    return;
  }
  env.setWeights(env.makeWeights(c.rng, 8));
  auto an = env.analyzer(3, AnalyzerConfig{});
  if (!(st = an->initScorers(env.sdef))) {
    c.viol("init-scorers", msg(st));
    return;
  }
  std::map<int, std::string> seen;
  for (std::string sx : {"aaaaaaaaXaaaaaaaa", "aaaaaaaaYaaaaaaaa", "Xaaaaaaaaaaaaaaaa",
                        "Yaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaX", "aaaaaaaaaaaaaaaaY"}) {
    const std::string& x = sx;
    if (!(st = an->run(sx, &env.sdef))) {
      c.viol("analysis-failed", msg(st));
      return;
    }
    auto starts = an->lattice()->boundary(2)->starts();
    for (size_t i = 0; i < starts->nodeInfo().size(); ++i) {
      if (starts->nodeInfo().at(i).end() != 17) continue;
      int v = starts->entryData().row(i).at(0);
      if (!seen.emplace(v, x).second)
        c.viol(std::string(x) == "aaaaaaaaYaaaaaaaa" ? "surface-hash-ignores-bytes" : "surface-hash",
               Msg() << seen[v] << " and " << x << " have hash " << v);
    }
  }
  if (seen.size() < 4) c.viol("surface-hash-unseen", "too few surfaces");
}

void runWorld(Ctx& c, int what) {
  if ((what & SCORE) && c.idx == 0) surfaceHashCase(c);
  vs::GenOpts o;
  if (what & (SCORE | BEAM | DUMP)) o.maxNgrams = 40;
  if (what & DUMP) o.maxNgrams = 24;
  Env env;
  if (!makeEnv(c, env, o)) return;
  RefModel ref(env.w);
  Checker k(c, env, ref, what);
  if ((what & (SCORE | BEAM | DUMP)) && !k.checkCompiledNgrams()) return;
  c.distinct(env.csv + k.specDump());
  c.stat("worlds");

  int nconf = (what & BEAM) ? 4 : 2;
  for (int ci = 0; ci < nconf; ++ci) {
    bool wide = (what & BEAM) && ci == 0;
    Conf conf = randConf(c.rng, wide);
    if (what & DUMP) conf.a.storeAllPatterns = true;
    auto an = env.analyzer(conf.beam, conf.a);
    auto st = an->initScorers(env.sdef);
    if (!st) {
      c.viol("init-scorers", msg(st) + " " + conf.text());
      return;
    }
    k.an = an.get();
    k.where = conf.text();
    if ((what & DUMP) && !k.initDump()) return;
    int ns = (what & BEAM) ? 6 : 10;
    for (int i = 0; i < ns; ++i) {
      std::string text;
      if (what & DICC && c.rng.chance(40)) text = c.rng.pick(env.w.words);
      else text = vs::randSentence(c.rng, env.w, wide ? 4 : 10);
      if (c.rng.chance(2)) text = "";
      if (text.size() > 4000) continue;
      k.t = makeSent(text);
      bool conn;
      k.cands = ref.candidates(k.t, &conn);
      st = an->run(text, &env.sdef);
      c.stat("sentences");
      if (!st) {
        if (conn || text.empty())
          c.viol("analysis-failed", msg(st) + "\n" + k.ctx());
        else c.stat("no_path_possible");
        continue;
      }
      if (!conn) {
        c.viol("analysis-without-path", "analysis succeeded although no path exists\n" + k.ctx());
        continue;
      }
      c.distinct(vh::hashStr(text, c.idx));
      if (!k.observe()) continue;
      bool same = k.match();
      if (!same) c.stat("candidates_differ");
      if (text.empty()) {
        if (what & DUMP) k.checkDump("");
        continue;
      }
      if (what & SEG) k.checkSegmentation();
      if (!same) continue;
      if (what & SCORE) k.checkScores();
      if (what & DUMP) k.checkDump(c.rng.chance(50) ? "" : vs::randSentence(c.rng, env.w, 3));
      if (what & BEAM) {
        k.checkBeams(conf, conf.text());
        if (wide) k.checkExhaustive(conf, conf.text());
      }
      if (c.violations > 3) return;
    }
  }
}

// ------------------------------------------------------------ partial annotation

struct PexEx {
  std::string block, text, comment, wrong;
  bool annotated = false;
  std::set<int> required, forbidden;  // by character
  struct W {
    int start, len;
    std::vector<std::pair<std::string, std::string>> tags;
  };
  std::vector<W> words;

  bool boundariesOk(int st, int en) const {
    if (forbidden.count(st) || forbidden.count(en)) return false;
    auto it = required.upper_bound(st);
    if (it != required.end() && *it < en) return false;
    for (auto& w : words)
      if (w.start == st && st + w.len != en) return false;
    return true;
  }
};

bool pexSafe(const std::string& s) {
  return s.find_first_of(std::string("\t\n\r\0", 4)) == std::string::npos;
}

// annotates the sentence; path: words which should stay possible
PexEx annotate(vh::Rng& r, const RefModel& ref, const Sent& t, const std::vector<const Cand*>& path,
               bool tags, const std::string& glue) {
  PexEx e;
  e.text = t.text;
  std::set<int> bnds;
  for (auto c : path) bnds.insert(c->start);
  bnds.insert(t.n());
  bool wild = path.empty();
  auto randEnd = [&](int from) {
    if (wild) return from + 1 + (int)r.skewed(std::max(0, t.n() - from - 1));
    std::vector<int> later;
    for (int b : bnds)
      if (b > from) later.push_back(b);
    return later[r.skewed((int)later.size() - 1)];
  };
  if (r.chance(30)) {
    e.comment = "S-ID:" + std::to_string(r.below(1000)) + " x";
    e.block += "# " + e.comment + "\n";
  }
  int pos = 0;
  while (pos < t.n()) {
    int end = randEnd(pos);
    const Cand* word = nullptr;
    for (auto c : path)
      if (c->start == pos && r.chance(40)) {
        word = c;
        end = c->end;
      }
    if (!word && wild && r.chance(40)) {
      end = std::min(end, pos + 3);
      e.annotated = true;
      e.words.push_back({pos, end - pos, {}});
      e.block += "\t" + t.sub(pos, end) + "\n";
      for (int i = pos + 1; i < end; ++i) e.forbidden.insert(i);
    } else if (word) {
      e.annotated = true;
      PexEx::W w{pos, end - pos, {}};
      e.block += "\t" + t.sub(pos, end);
      for (auto& f : ref.s.train) {
        if (!tags || !r.chance(50)) continue;
        auto fld = ref.s.field(f.field);
        if (fld->type != 'S') continue;
        if (!ref.used.count(f.field)) {
          // known only to the dictionary: nothing to compare with
          if (r.chance(92)) continue;
          e.wrong = "field is not analysed";
        }
        std::string v = word->over.count(f.field) ? t.sub(pos, end) : ref.val(word->src, f.field);
        if (r.chance(6)) v = ref.val((int)r.below(ref.d.rows.size()), f.field);
        if (r.chance(2)) v = "unseen";
        // absent values are written with the marker of the field, if any
        if (!pexSafe(v)) continue;
        w.tags.push_back({f.field, v});
        e.block += "\t" + f.field + ":" + (v.empty() ? fld->empty : v);
      }
      if (r.chance(1)) {
        e.wrong = "field does not exist";
        e.block += "\tzz9:a";
      }
      if (r.chance(1)) {
        e.wrong = "tag has no field";
        e.block += "\tzz9";
      }
      e.words.push_back(w);
      e.block += "\n";
      for (int i = pos + 1; i < end; ++i) e.forbidden.insert(i);
    } else {
      std::string line;
      for (int i = pos; i < end; ++i) {
        if (i > pos && (wild || !bnds.count(i)) && r.chance(25)) {
          line += glue;
          e.forbidden.insert(i);
          e.annotated = true;
        }
        line += t.ch(i);
      }
      if (line.substr(0, 2) == "# ") line = glue + line;
      e.block += line + "\n";
    }
    if (end < t.n()) {
      e.annotated = true;
      e.required.insert(end);
    }
    pos = end;
  }
  return e;
}

void pexGarbage(Ctx& c, Env& env, VAnalyzer& an, const std::vector<PexEx>& exs) {
  std::string all;
  for (auto& e : exs) all += e.block + "\n";
  int n = 1 + (int)c.rng.below(6);
  for (int i = 0; i < n && !all.empty(); ++i) {
    size_t at = c.rng.below(all.size());
    switch (c.rng.below(6)) {
      case 0: all[at] = (char)c.rng.below(256); break;
      case 1: all.erase(at, 1 + c.rng.below(5)); break;
      case 2: all.insert(at, 1, "\t\n&:#\0\r"[c.rng.below(7)]); break;
      case 3: all.resize(at); break;
      case 4: all.insert(at, all.substr(c.rng.below(all.size()), c.rng.below(20))); break;
      default: all.insert(at, "\t\tx:y"); break;
    }
  }
  input::PexStreamReader rd;
  auto st = rd.initialize(*env.core);
  if (!st) return;
  Analyzer wrap;
  if (!wrap.initialize(&an, &env.sdef)) return;
  std::istringstream is(all);
  int k = 0;
  while (is.peek() != EOF && ++k < 100) {
    st = rd.readExample(&is);
    if (!st) {
      if (msg(st).size() < 20) c.viol("pex-error", "error without a message");
      c.stat("pex_rejected");
      continue;
    }
    st = rd.analyzeWith(&wrap);
    c.stat(st ? "pex_damaged_analysed" : "pex_damaged_failed");
    if (st && an.lattice()->createdBoundaryCount() > 3) {
      AnalysisPath p;
      if (!p.fillIn(an.lattice())) c.viol("pex-path", "no path\n" + all);
    }
  }
}

// scores of all paths at the end, to compare two analyses
std::string endText(VAnalyzer& an) {
  auto l = an.lattice();
  std::ostringstream o;
  int nb = (int)l->createdBoundaryCount();
  if (nb <= 3) return "-";
  for (auto& e : l->boundary(nb - 1)->starts()->beamData().row(0)) {
    if (EntryBeam::isFake(e)) break;
    o << e.totalScore;
    for (const ConnectionPtr* p = &e.ptr; p; p = p->previous) o << " " << p->boundary << "." << p->right << "." << p->beam;
    o << "\n";
  }
  return o.str();
}

void partialCase(Ctx& c) {
  vs::GenOpts o;
  o.trainChance = 93;
  Env env;
  env.w = vs::genWorld(c.rng, o);
  fixWorld(env.w);
  bool trained = !env.w.spec.train.empty();
  auto st = env.build(c.rng, vh::G().tmpDir);
  if (!st) return c.viol("world-build", msg(st) + "\n" + env.specText + "\n--- dic\n" + env.csv);
  // small weights: penalties are finite
  auto wt = env.makeWeights(c.rng, 6 + (int)c.rng.below(6));
  for (auto& x : wt) x /= 16;
  env.setWeights(wt);
  RefModel ref(env.w);
  Checker k(c, env, ref, 0);
  c.stat("worlds");
  c.distinct(env.csv + k.specDump());
  for (int ci = 0; ci < 2; ++ci) {
    Conf conf = randConf(c.rng, false);
    auto an = env.analyzer(conf.beam, conf.a);
    if (!(st = an->initScorers(env.sdef))) return c.viol("init-scorers", msg(st));
    k.an = an.get();
    k.where = conf.text();
    Analyzer wrap;
    if (!(st = wrap.initialize(an.get(), &env.sdef))) return c.viol("init-wrap", msg(st));
    input::PexStreamReader rd;
    // the character which glues its neighbours can be chosen
    struct Glue { char32_t cp; const char* s; };
    static const Glue glues[] = {{U'&', "&"}, {U'|', "|"}, {U'\u3000', "\u3000"}, {U'\u00b6', "\u00b6"}, {0x1f600, "\U0001F600"}};
    auto& glue = glues[c.rng.chance(50) ? 0 : c.rng.below(5)];
    st = glue.cp == U'&' && c.rng.chance(50) ? rd.initialize(*env.core) : rd.initialize(*env.core, glue.cp);
    if (!st) {
      bool numeric = false;
      for (auto& f : env.w.spec.train) numeric |= env.w.spec.field(f.field)->type != 'S';
      if (!numeric && trained) c.viol("pex-init", msg(st) + "\n" + k.ctx());
      c.stat("pex_not_supported");
      return;
    }
    input::PexStreamReader copy;
    bool useCopy = c.rng.chance(30);
    if (useCopy && !(st = copy.initialize(rd))) return c.viol("pex-init", msg(st));
    auto& reader = useCopy ? copy : rd;

    std::vector<PexEx> exs;
    for (int i = 0; i < 8; ++i) {
      std::string text = vs::randSentence(c.rng, env.w, 8);
      std::string clean;
      for (char ch : text)
        if (!strchr("\t\r", ch)) clean += ch;
      for (size_t q; (q = clean.find(glue.s)) != std::string::npos;) clean.erase(q, strlen(glue.s));
      if (clean.empty() || clean.size() > 300) continue;
      Sent t = makeSent(clean);
      bool conn;
      auto cands = ref.candidates(t, &conn);
      std::vector<const Cand*> path;
      if (conn && c.rng.chance(75)) {
        std::vector<char> ok(t.n() + 1);
        ok[t.n()] = 1;
        for (int p = t.n(); p-- > 0;)
          for (auto& x : cands)
            if (x.start == p && ok[x.end]) ok[p] = 1;
        for (int p = 0; p < t.n();) {
          std::vector<const Cand*> next;
          for (auto& x : cands)
            if (x.start == p && ok[x.end]) next.push_back(&x);
          path.push_back(c.rng.pick(next));
          p = path.back()->end;
        }
      }
      if (c.rng.chance(20)) {
        PexEx e;
        e.text = clean;
        e.block = (clean.substr(0, 2) == "# " ? glue.s : "") + clean + "\n";
        exs.push_back(e);
      } else {
        exs.push_back(annotate(c.rng, ref, t, path, trained, glue.s));
      }
    }
    std::string all;
    for (auto& e : exs) all += e.block + "\n";
    if (c.rng.chance(30) && !all.empty()) all.pop_back();
    std::istringstream is(all);
    for (auto& e : exs) {
      auto ctx = [&] { return std::string("--- annotation\n") + e.block + k.ctx(); };
      k.t = makeSent(e.text);
      bool conn;
      k.cands = ref.candidates(k.t, &conn);
      st = reader.readExample(&is);
      if (!e.wrong.empty()) {
        if (st) return c.viol("pex-accepted", e.wrong + "\n" + ctx());
        c.stat("wrong_annotations");
        continue;
      }
      if (!st) {
        c.viol("pex-read", msg(st) + "\n" + ctx());
        return;
      }
      c.stat("annotated_sentences");
      if (str(reader.surface()) != e.text) return c.viol("pex-text", str(reader.surface()) + "\n" + ctx());
      if (str(reader.comment()) != e.comment)
        c.viol("pex-comment", "comment [" + str(reader.comment()) + "] expected [" + e.comment + "]\n" + ctx());
      st = reader.analyzeWith(&wrap);
      if (!st) {
        if (conn) c.viol("pex-analysis", msg(st) + "\n" + ctx());
        continue;
      }
      std::string mine = endText(*an);
      if (!k.observe()) return;
      bool same = k.match();
      auto l = an->lattice();
      if (same) {
        // can all annotations be satisfied?
        auto tagsOk = [&](const Cand& x) {
          for (auto& w : e.words)
            if (w.start == x.start)
              for (auto& tg : w.tags) {
                std::string v = x.over.count(tg.first) ? k.t.sub(x.start, x.end) : ref.val(x.src, tg.first);
                if (v != tg.second) return false;
              }
          return true;
        };
        auto possible = [&](bool tags) {
          std::vector<char> ok(k.t.n() + 1);
          ok[0] = 1;
          for (int p = 0; p < k.t.n(); ++p)
            if (ok[p])
              for (auto& x : k.cands)
                if (x.start == p && e.boundariesOk(x.start, x.end) && (!tags || tagsOk(x))) ok[x.end] = 1;
          return (bool)ok[k.t.n()];
        };
        bool pb = possible(false), pt = pb && possible(true);
        int nb = (int)l->createdBoundaryCount();
        auto beam = l->boundary(nb - 1)->starts()->beamData().row(0);
        if (EntryBeam::isFake(beam.at(0))) return c.viol("pex-no-path", ctx());
        std::string res;
        bool gb = true, gt = true, unclear = false;
        for (auto p = beam.at(0).ptr.previous; p->boundary >= 2; p = p->previous) {
          Node& n = k.nodeOf(*p);
          res = k.t.sub(n.start, n.end) + " " + res;
          gb &= e.boundariesOk(n.start, n.end);
          if (n.cand < 0) unclear = true;
          else gt &= tagsOk(k.cands[n.cand]);
        }
        if (pb) c.stat("satisfiable_boundaries");
        else c.stat("unsatisfiable_boundaries");
        if (pt && e.annotated) c.stat("satisfiable_annotations");
        if (pb && !gb) c.viol("pex-boundary", "result " + res + "\n" + ctx());
        else if (pt && !gt && !unclear) c.viol("pex-tag", "result " + res + "\n" + ctx());
      }
      // without annotations nothing may change, also not by those before
      std::unique_ptr<VAnalyzer> fresh;
      VAnalyzer* second = an.get();
      if (c.rng.chance(50)) {
        fresh = env.analyzer(conf.beam, conf.a);
        if (!(st = fresh->initScorers(env.sdef))) return c.viol("init-scorers", msg(st));
        second = fresh.get();
      }
      if (!e.annotated || c.rng.chance(30)) {
        Analyzer w2;
        if (!(st = w2.initialize(second, &env.sdef))) return c.viol("init-wrap", msg(st));
        if (!(st = w2.analyze(e.text))) return c.viol("plain-analysis", msg(st) + "\n" + ctx());
        std::string plain = endText(*second);
        if (!e.annotated && plain != mine) c.viol("pex-unannotated", "differs from the plain result\n" + ctx());
        if (!e.annotated) c.stat("plain_compared");
        if (e.annotated) {
          auto third = env.analyzer(conf.beam, conf.a);
          if (!(st = third->initScorers(env.sdef))) return c.viol("init-scorers", msg(st));
          if (!(st = third->run(e.text, &env.sdef))) return c.viol("plain-analysis", msg(st) + "\n" + ctx());
          if (endText(*third) != plain) c.viol("pex-leak", "annotations change a later analysis\n" + ctx());
          c.stat("leaks_checked");
        }
        if (second == an.get() && !(st = wrap.initialize(an.get(), &env.sdef))) return c.viol("init-wrap", msg(st));
      }
      if (c.violations > 3) return;
    }
    if (c.rng.chance(60)) pexGarbage(c, env, *an, exs);
  }
}

}  // namespace

int main(int argc, const char** argv) {
  std::map<std::string, vh::CaseFn> fns;
  fns["segment"] = [](Ctx& c) { runWorld(c, SEG); };
  fns["dic"] = [](Ctx& c) { runWorld(c, DICC); };
  fns["unk"] = [](Ctx& c) { runWorld(c, UNKC); };
  fns["score"] = [](Ctx& c) { runWorld(c, SCORE); };
  fns["partial"] = partialCase;
  fns["dump"] = [](Ctx& c) { runWorld(c, DUMP); };
  fns["beam"] = [](Ctx& c) { runWorld(c, BEAM); };
  return vh::run(argc, argv, fns);
}
