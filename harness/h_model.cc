// C10: model files are written and read back, truncated and damaged.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstring>
#include <fstream>

#include "core/analysis/analyzer.h"
#include "core/impl/model_format_ser.h"
#include "core/impl/perceptron_io.h"
#include "core/spec/spec_serialization.h"
#include "vcore.h"

using namespace vc;
using vh::Ctx;
using vh::Msg;
using vh::Rng;
using std::string;

namespace {

string slurp(const string& f) {
  std::ifstream i(f, std::ios::binary);
  return string(std::istreambuf_iterator<char>(i), {});
}

void spit(const string& f, const string& s) {
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o << s;
}

Status save(const string& file, const model::ModelInfo& nfo) {
  model::ModelSaver sv;
  JPP_RETURN_IF_ERROR(sv.open(file));
  return sv.save(nfo);
}

string randComment(Rng& r) {
  static const char* const pool[] = {"", "2018-01-01", "辞書", "a b\nc", "\xff\x80", "v\"1\""};
  if (r.chance(10)) return string(r.below(400), 'x');
  return r.pick(pool);
}

// ---------------------------------------------------------------- raw models

struct RawModel {
  std::vector<string> store;  // contents of blocks
  model::ModelInfo info;
};

void randRaw(Rng& r, RawModel* m, int maxParts = 5, int maxBlocks = 8) {
  static const size_t sizes[] = {0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193};
  int np = (int)r.below((uint64_t)maxParts + 1);
  std::vector<std::vector<size_t>> idx;
  for (int i = 0; i < np; ++i) {
    m->info.parts.emplace_back();
    auto& p = m->info.parts.back();
    p.kind = (model::ModelPartKind)r.below(4);
    p.comment = randComment(r);
    int nb = (int)r.below((uint64_t)maxBlocks + 1);
    idx.emplace_back();
    for (int b = 0; b < nb; ++b) {
      size_t n = r.chance(50) ? r.pick(sizes) : r.below(r.chance(5) ? 60000 : 300);
      string s;
      char base = (char)r.below(256);
      for (size_t k = 0; k < n; ++k) s.push_back((char)(base + (char)(k * 7)));
      idx.back().push_back(m->store.size());
      m->store.push_back(s);
    }
  }
  for (int i = 0; i < np; ++i)
    for (auto x : idx[i]) m->info.parts[i].data.push_back(m->store[x]);
}

string diffInfo(const model::ModelInfo& a, const model::ModelInfo& b) {
  if (a.parts.size() != b.parts.size()) return "number of parts";
  for (size_t i = 0; i < a.parts.size(); ++i) {
    auto &x = a.parts[i], &y = b.parts[i];
    if (x.kind != y.kind) return Msg() << "kind of part " << i;
    if (x.comment != y.comment) return Msg() << "comment of part " << i;
    if (x.data.size() != y.data.size()) return Msg() << "number of blocks of part " << i;
    for (size_t k = 0; k < x.data.size(); ++k)
      if (str(x.data[k]) != str(y.data[k])) return Msg() << "block " << k << " of part " << i;
  }
  return "";
}

string infoText(const model::ModelInfo& m) {
  Msg o;
  for (auto& p : m.parts) {
    o << "part kind=" << (int)p.kind << " comment=" << p.comment.size() << "B blocks:";
    for (auto& d : p.data) o << " " << d.size();
    o << "\n";
  }
  return o;
}

void rawCase(Ctx& c) {
  auto& r = c.rng;
  string f = c.tmp("raw.mdl"), g = c.tmp("raw2.mdl");
  unlink(f.c_str());
  unlink(g.c_str());
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; ++i) {
    RawModel m;
    bool big = r.chance(6);
    if (big) randRaw(r, &m, 12, 60);
    else randRaw(r, &m);
    auto s = save(f, m.info);  // the second one over the first one
    if (!s) {
      // only the size of the header is limited
      size_t blocks = 0, text = 0;
      for (auto& p : m.info.parts) {
        blocks += p.data.size() * 8 + 16;
        text += p.comment.size();
      }
      if (blocks + text < 4000) c.viol("model:save", Msg() << s << "\n" << infoText(m.info));
      c.stat("save_rejected");
      unlink(f.c_str());
      continue;
    }
    model::FilesystemModel fm;
    auto s2 = fm.open(f);
    model::ModelInfo back;
    if (s2) s2 = fm.load(&back);
    if (!s2) {
      c.viol("model:load", Msg() << s2 << "\n" << infoText(m.info));
      return;
    }
    auto d = diffInfo(m.info, back);
    if (!d.empty()) c.viol("model:differs", d + "\n" + infoText(m.info));
    // in a new file everything is determined by the contents
    unlink(g.c_str());
    string h = c.tmp("raw3.mdl");
    unlink(h.c_str());
    if (!save(g, back) || !save(h, m.info)) c.viol("model:resave", infoText(m.info));
    else if (slurp(g) != slurp(h)) c.viol("model:resave-differs", infoText(m.info));
    model::ModelSaver sv;
    if (sv.save(m.info)) c.viol("model:save-unopened", "");
    c.stat("blocks", m.store.size());
    c.stat("models");
    c.distinct(infoText(m.info));
  }
}

// -------------------------------------------------------------- whole models

struct Full {
  Env env;  // w, spec, builder are used
  string permeta;
  std::vector<float> weights;
  model::ModelInfo info;
  bool trained = false;

  Status build(Rng& r, const string& dir, bool train) {
    auto& e = env;
    vs::GenOpts o;
    o.maxRows = r.chance(30) ? 60 : 16;
    e.w = vs::genWorld(r, o);
    fixWorld(e.w);
    if (e.w.spec.hasLow() || e.w.spec.hasForward() || r.chance(50)) {
      JPP_RETURN_IF_ERROR(buildSpecDsl(e.w.spec, &e.spec));
    } else {
      JPP_RETURN_IF_ERROR(buildSpecText(e.w.spec, r, dir, &e.spec, &e.specText));
    }
    e.csv = vs::csvText(e.w.dic.rows, &r, true);
    JPP_RETURN_IF_ERROR(e.builder.importSpec(&e.spec));
    JPP_RETURN_IF_ERROR(e.builder.importCsv("dic", e.csv));
    info.parts.emplace_back();
    JPP_RETURN_IF_ERROR(e.builder.fillModelPart(&info.parts.back()));
    info.parts.back().comment = randComment(r);
    trained = train;
    if (train) {
      int bits = r.chance(20) ? (int)r.below(3) : (int)r.range(3, 12);
      weights = e.makeWeights(r, bits);
      util::serialization::Saver sv;
      PerceptronInfo pi;
      pi.modelSizeExponent = bits;
      sv.save(pi);
      permeta = str(sv.result());
      info.parts.emplace_back();
      auto& p = info.parts.back();
      p.kind = model::ModelPartKind::Perceprton;
      p.comment = randComment(r);
      p.data.push_back(permeta);
      p.data.push_back(StringPiece{reinterpret_cast<const char*>(weights.data()),
                                   weights.size() * sizeof(float)});
      if (r.chance(30)) std::swap(info.parts[0], info.parts[1]);
    }
    return Status::Ok();
  }
};

string digest(const AnalyzerImpl& a) {
  auto l = const_cast<AnalyzerImpl&>(a).lattice();
  Msg o;
  for (u32 b = 0; b < l->createdBoundaryCount(); ++b) {
    auto bnd = l->boundary(b);
    auto st = bnd->starts();
    auto info = st->nodeInfo();
    for (size_t i = 0; i < info.size(); ++i) {
      auto& ni = info.at(i);
      if (b < 2) break;
      o << b << " " << ni.numCodepoints() << " " << ni.entryPtr().rawValue();
      auto ent = st->entryData().row(i);
      for (size_t k = 0; k < ent.size(); ++k) o << "," << ent.at(k);
      for (auto& be : st->beamData().row(i)) {
          if (EntryBeam::isFake(be)) break;
          o << " " << be.ptr.boundary << ":" << be.ptr.left << ":" << be.ptr.right << ":"
            << be.ptr.beam << "=" << (double)be.totalScore;
        }
      o << "\n";
    }
  }
  return o;
}

string specBytes(const spec::AnalysisSpec& s) {
  util::CodedBuffer cb;
  spec::saveSpec(s, &cb);
  return str(cb.contents());
}

void fullCase(Ctx& c) {
  auto& r = c.rng;
  Full f;
  bool train = r.chance(85);
  auto s = f.build(r, c.tmp(""), train);
  if (!s) {
    c.viol("model:build", msg(s));
    return;
  }
  string path = c.tmp("full.mdl");
  if (r.chance(40)) spit(path, string(r.below(200000), 'j'));  // something was there
  else unlink(path.c_str());
  s = save(path, f.info);
  if (!s) {
    c.viol("model:save", msg(s));
    return;
  }
  JumanppEnv env;
  s = env.loadModel(path);
  if (!s) {
    c.viol("model:load", msg(s));
    return;
  }
  // nothing depends on what was in memory before
  // (the first block of the dictionary has a time stamp)
  string blocks = specBytes(f.env.builder.result().spec);
  for (auto& p : f.info.parts)
    for (size_t i = p.kind == model::ModelPartKind::Dictionary; i < p.data.size(); ++i)
      blocks += str(p.data[i]) + "|";
  c.digest(blocks);
  auto& mem = f.env.builder.result();
  auto back = env.modelInfoCopy();
  auto d = diffInfo(f.info, back);
  if (!d.empty()) c.viol("model:differs", d);
  if (specBytes(env.spec()) != specBytes(mem.spec)) c.viol("model:spec-differs", "");
  VersionInfo vi;
  env.fillVersion(&vi);
  for (auto& p : f.info.parts) {
    bool dic = p.kind == model::ModelPartKind::Dictionary;
    if ((dic ? vi.dictionary : vi.model) != p.comment) c.viol("model:version", p.comment);
  }
  if (!train) {
    if (env.hasPerceptronModel()) c.viol("model:perceptron-appeared", "");
    Analyzer a;
    if (env.makeAnalyzer(&a)) c.viol("model:untrained-analyzer", "");
    c.stat("untrained");
  } else {
    // one directly from memory, one from the file, one from the file saved again
    dic::DictionaryHolder dh;
    s = dh.load(mem);
    CoreHolder core(mem.spec, dh);
    if (s) s = core.initialize(nullptr);
    if (s) s = env.initFeatures(nullptr);
    JumanppEnv env2;
    string path2 = c.tmp("full2.mdl");
    unlink(path2.c_str());
    if (s) s = save(path2, back);
    if (s) s = env2.loadModel(path2);
    if (s) s = env2.initFeatures(nullptr);
    if (!s) {
      c.viol("model:init", msg(s));
      return;
    }
    string path3 = c.tmp("full3.mdl");
    unlink(path3.c_str());
    if (!save(path3, f.info) || slurp(path3) != slurp(path2)) c.viol("model:resave-differs", "");
    HashedFeaturePerceptron perc{util::ArraySlice<float>{f.weights}};
    ScorerDef sdef;
    sdef.feature = &perc;
    sdef.scoreWeights = {1.f};
    AnalyzerConfig cfg;
    int beam = (int)r.range(1, 6);
    cfg.globalBeamSize = r.chance(50) ? 0 : (i32)r.range(1, 6);
    cfg.rightGbeamCheck = (i32)r.range(1, 3);
    cfg.rightGbeamSize = (i32)r.range(1, 5);
    for (auto e : {&env, &env2}) {
      e->setBeamSize((u32)beam);
      e->setGlobalBeam(cfg.globalBeamSize, cfg.rightGbeamCheck, cfg.rightGbeamSize);
    }
    AnalyzerImpl* impl0;
    VAnalyzer va(&core, ScoringConfig{beam, 1}, cfg);
    impl0 = &va;
    Analyzer a0, a1, a2;
    s = a0.initialize(impl0, &sdef);
    if (s) s = env.makeAnalyzer(&a1);
    if (s) s = env2.makeAnalyzer(&a2);
    if (!s) {
      c.viol("model:analyzer", msg(s));
      return;
    }
    for (int i = 0; i < 6; ++i) {
      auto text = vs::randSentence(r, f.env.w, 10);
      auto x = a0.analyze(text), y = a1.analyze(text), z = a2.analyze(text);
      if ((bool)x != (bool)y || (bool)y != (bool)z) {
        c.viol("model:analysis-status", text);
        continue;
      }
      if (!x) {
        c.stat("unanalysable");
        continue;
      }
      if (text.empty()) continue;
      auto dx = digest(*a0.impl()), dy = digest(*a1.impl()), dz = digest(*a2.impl());
      if (dx != dy || dy != dz)
        c.viol("model:analysis", Msg() << text << "\n--- memory\n" << dx << "\n--- file\n" << dy << "\n--- again\n" << dz);
      c.stat("sentences");
      c.distinct(dx);
    }
  }
  c.stat("models");
}

// ---------------------------------------------------------------- truncation

// what the loading may look at
bool loads(Ctx& c, const string& path, bool render, size_t fileSize) {
  {
    model::FilesystemModel fm;
    auto s = fm.open(path);
    model::ModelInfo nfo;
    if (s) s = fm.load(&nfo);
    if (s) {
      // every byte of every block can be read and is from the file
      unsigned sum = 0;
      const char *lo = nullptr, *hi = nullptr;
      for (auto& p : nfo.parts)
        for (auto& d : p.data) {
          for (auto ch : d) sum += (unsigned char)ch;
          if (d.size() == 0) continue;
          if (!lo || d.begin() < lo) lo = d.begin();
          if (!hi || d.end() > hi) hi = d.end();
        }
      if (hi && (size_t)(hi - lo) > fileSize) c.viol("model:outside", Msg() << hi - lo);
      volatile unsigned sink = sum;
      (void)sink;
    }
    if (render && s) fm.renderInfo();
  }
  JumanppEnv env;
  auto s = env.loadModel(path);
  VersionInfo vi;
  env.fillVersion(&vi);
  return (bool)s;
}

void truncateCase(Ctx& c) {
  auto& r = c.rng;
  Full f;
  if (!f.build(r, c.tmp(""), r.chance(80))) return c.viol("model:build", "");
  string path = c.tmp("t.mdl");
  unlink(path.c_str());
  if (!save(path, f.info)) return c.viol("model:save", "");
  string all = slurp(path);
  std::vector<size_t> cuts{0, 1, 7, 8, 9, 10, 100, 4095, 4096, 4097, all.size() - 1};
  size_t off = 4096;
  for (auto& p : f.info.parts)
    for (auto& d : p.data) {
      if (d.size() == 0) continue;
      for (size_t x : {off, off + 1, off + d.size() / 2, off + d.size() - 1, off + d.size()})
        cuts.push_back(x);
      off = (off + d.size() + 4095) / 4096 * 4096;
      cuts.push_back(off - 1);
    }
  for (int i = 0; i < 20; ++i) cuts.push_back(r.below(all.size()));
  for (auto x : cuts) {
    if (x >= all.size()) continue;
    if (truncate(path.c_str(), (off_t)x) != 0 || r.chance(30)) spit(path, all.substr(0, x));
    if (loads(c, path, r.chance(10), x))
      c.viol("model:truncated", Msg() << "accepted when cut to " << x << " of " << all.size() << "\n" << infoText(f.info));
    c.stat("cuts");
    c.distinct(Msg() << x << " " << all.size());
    spit(path, all);
  }
  if (!loads(c, path, true, all.size())) c.viol("model:not-truncated", "");
  // something that is no model
  string junk;
  size_t n = r.below(9000);
  for (size_t i = 0; i < n; ++i) junk.push_back((char)r.below(256));
  if (r.chance(50)) junk = string(n, (char)r.below(256));
  if (r.chance(30)) junk = f.env.csv + f.env.csv + string(4096, '\n');
  spit(path, junk);
  if (loads(c, path, true, junk.size())) c.viol("model:junk", junk.substr(0, 200));
}

// -------------------------------------------------------------------- damage

string header(const model::ModelInfoRaw& raw) {
  util::serialization::Saver sv;
  auto copy = raw;
  sv.save(copy);
  util::CodedBuffer cb;
  auto body = str(sv.result());
  cb.writeVarint(body.size());
  string h("jp2Mdl!");
  h.push_back('\0');
  h += str(cb.contents()) + body;
  return h;
}

model::ModelInfoRaw layout(const model::ModelInfo& m) {
  model::ModelInfoRaw raw;
  size_t off = 4096;
  for (auto& p : m.parts) {
    model::ModelPartRaw q;
    q.kind = p.kind;
    q.comment = p.comment;
    q.start = off;
    for (auto& d : p.data) {
      q.data.push_back(model::BlockPtr{off, d.size()});
      if (d.size()) off = (off + d.size() + 4095) / 4096 * 4096;
    }
    q.end = off;
    raw.parts.push_back(q);
  }
  return raw;
}

u64 wild(Rng& r, u64 v, u64 size) {
  switch (r.below(9)) {
    case 0: return v + 1;
    case 1: return v - 1;
    case 2: return size;
    case 3: return size - v;
    case 4: return ~(u64)0 - r.below(5000);
    case 5: return r.below(size + 10);
    case 6: return (u64)1 << r.below(64);
    case 7: return 0;
    default: return (u64)-(i64)v;
  }
}

void damageCase(Ctx& c) {
  auto& r = c.rng;
  Full f;
  if (!f.build(r, c.tmp(""), r.chance(80))) return c.viol("model:build", "");
  string path = c.tmp("d.mdl");
  unlink(path.c_str());
  if (!save(path, f.info)) return c.viol("model:save", "");
  string all = slurp(path);
  auto raw = layout(f.info);
  auto hdr = header(raw);
  if (all.substr(0, hdr.size()) != hdr) {
    c.viol("model:header", "unexpected header");
    return;
  }
  for (int i = 0; i < 40; ++i) {
    string bad = all;
    string what;
    bool must = false;  // be rejected
    switch (r.below(6)) {
      case 0: {  // the magic
        size_t p = r.below(7);
        bad[p] = (char)(bad[p] ^ (1 << r.below(8)));
        what = "magic";
        must = true;
        break;
      }
      case 1: {  // the size
        util::CodedBuffer cb;
        u64 n = wild(r, hdr.size(), 4096);
        cb.writeVarint(n);
        auto v = str(cb.contents());
        bad.replace(8, v.size(), v);
        what = "size";
        must = n > 4088;
        break;
      }
      case 2: {  // some bytes
        int n = 1 + (int)r.below(4);
        for (int k = 0; k < n; ++k) bad[8 + r.below(hdr.size() - 8)] = (char)r.below(256);
        what = "bytes";
        break;
      }
      case 3: {  // a byte is lost or appears
        size_t p = 8 + r.below(hdr.size() - 8);
        if (r.chance(50)) bad.erase(p, 1), bad.insert(4095, 1, '\0');
        else bad.insert(p, 1, (char)r.below(256)), bad.erase(4096, 1);
        what = "shift";
        break;
      }
      case 4: {  // zeros from some position on, as if a sector was not written
        size_t p = r.chance(50) ? 0 : r.below(8) * 512;
        for (size_t k = p; k < 4096 && (p == 0 || k < p + 512); ++k) bad[k] = 0;
        what = "zeros";
        must = p == 0;
        break;
      }
      default: {  // well-formed, but with other values
        auto m = raw;
        int n = 1 + (int)r.below(2);
        for (int k = 0; k < n && !m.parts.empty(); ++k) {
          auto& p = m.parts[r.below(m.parts.size())];
          switch (r.below(7)) {
            case 0:
              if (!p.data.empty()) {
                auto& b = p.data[r.below(p.data.size())];
                b.offset = wild(r, b.offset, all.size());
              }
              break;
            case 1:
              if (!p.data.empty()) {
                auto& b = p.data[r.below(p.data.size())];
                b.size = wild(r, b.size, all.size());
              }
              break;
            case 2:
              if (!p.data.empty()) p.data.erase(p.data.begin() + r.below(p.data.size()));
              break;
            case 3:
              if (!p.data.empty()) p.data.insert(p.data.begin() + r.below(p.data.size()), p.data[r.below(p.data.size())]);
              break;
            case 4: p.kind = (model::ModelPartKind)(r.chance(80) ? r.below(5) : r.below(1000)); break;
            case 5: {
              auto q = p;
              m.parts.push_back(q);
              break;
            }
            default:
              if (m.parts.size() > 1 || r.chance(10)) m.parts.erase(m.parts.begin() + r.below(m.parts.size()));
          }
        }
        for (auto& p : m.parts)
          for (auto& b : p.data)
            must |= b.size != 0 && (b.offset > all.size() || b.size > all.size() - b.offset);
        auto h = header(m);
        bad = h + string(4096 - h.size(), '\0') + all.substr(4096);
        what = "values";
      }
    }
    if (f.trained && r.chance(15)) {
      // weights which are not what is written about them
      auto nfo = f.info;
      auto& p = *nfo.firstPartOf(model::ModelPartKind::Perceprton);
      PerceptronInfo pi;
      util::serialization::Saver sv;
      pi.modelSizeExponent = r.chance(50) ? (i32)r.range(-3, 70) : (i32)r.next();
      if (r.chance(5)) pi.modelSizeExponent = INT32_MIN;
      sv.save(pi);
      auto m = str(sv.result());
      if (r.chance(70)) p.data[0] = m;
      if (r.chance(20)) p.data[0] = m = m.substr(0, r.below(m.size() + 1));
      auto w = p.data[1];
      if (r.chance(30)) p.data[1] = w = w.slice(0, (ptrdiff_t)r.below(w.size() + 1));
      must = p.data[0].begin() == m.data() &&
             (m.empty() || pi.modelSizeExponent < 0 || pi.modelSizeExponent > 20 || w.size() / 4 != (size_t)1 << pi.modelSizeExponent);
      unlink(path.c_str());
      if (!save(path, nfo)) return c.viol("model:save", "");
      bad = slurp(path);
      what = "weights";
    }
    if (bad == all) continue;
    spit(path, bad);
    bool ok = loads(c, path, true, bad.size());
    if (ok && must) c.viol("model:accepts-" + what, Msg() << i);
    c.stat(what + (ok ? "_loaded" : "_rejected"));
    c.distinct(bad.substr(0, 4096));
  }
}

// -------------------------------------------------------- interrupted saving

// Saves the model in another process, which dies at some block or can not
// make the file larger than a limit. 0 when it was saved, 1 for an error
int saveElsewhere(const string& path, const model::ModelInfo& nfo, long limit) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGSEGV, SIG_DFL);
    signal(SIGBUS, SIG_DFL);
    if (limit >= 0) {
      signal(SIGXFSZ, SIG_IGN);
      rl.rlim_cur = rl.rlim_max = (rlim_t)limit;
      setrlimit(RLIMIT_FSIZE, &rl);
    }
    _exit(save(path, nfo) ? 0 : 1);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return 2;
  return WEXITSTATUS(st);
}

void interruptCase(Ctx& c) {
  auto& r = c.rng;
  string path = c.tmp("i.mdl");
  RawModel oldM, newM;
  auto fill = [&](RawModel* m) {
    do {
      *m = RawModel{};
      randRaw(r, m, 3, 6);
    } while (m->store.empty());
  };
  fill(&oldM);
  fill(&newM);
  for (int i = 0; i < 6; ++i) {
    unlink(path.c_str());
    bool existed = r.chance(60);
    if (existed && !save(path, oldM.info)) return c.viol("model:save", "");
    auto nfo = newM.info;
    int res;
    string what;
    void* trap = nullptr;
    size_t trapSize = 0;
    if (r.chance(70)) {
      // reading this block kills the process
      size_t p = r.below(nfo.parts.size());
      while (nfo.parts[p].data.empty()) p = (p + 1) % nfo.parts.size();
      size_t b = r.below(nfo.parts[p].data.size());
      auto& d = nfo.parts[p].data[b];
      size_t pages = (d.size() + 4095) / 4096;
      size_t good = pages ? r.below(pages) : 0;
      trapSize = (pages + 1) * 4096;
      trap = mmap(nullptr, trapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      memcpy(trap, d.begin(), d.size());
      mprotect((char*)trap + good * 4096, trapSize - good * 4096, PROT_NONE);
      d = StringPiece{(const char*)trap, d.size()};
      what = Msg() << "killed at part " << p << " block " << b << " page " << good;
      res = saveElsewhere(path, nfo, -1);
    } else {
      long limit = (long)r.below(60000);
      if (r.chance(50)) limit = limit / 4096 * 4096;
      what = Msg() << "file size limit " << limit;
      res = saveElsewhere(path, nfo, limit);
    }
    what += existed ? ", over another model\n--- new\n" : ", new file\n--- new\n";
    what += infoText(newM.info) + "--- old\n" + infoText(oldM.info);
    model::FilesystemModel fm;
    model::ModelInfo back;
    auto s = fm.open(path);
    if (s) s = fm.load(&back);
    bool isNew = s && diffInfo(newM.info, back).empty();
    bool isOld = s && existed && diffInfo(oldM.info, back).empty();
    if (res == 0 && !isNew) c.viol("model:saved-not-loaded", what);
    if (s && !isNew && !isOld) c.viol(Msg() << "model:mixed-" << (res == 2 ? "killed" : "failed"), what);
    if (trap) munmap(trap, trapSize);
    c.stat(res == 0 ? "saved" : res == 1 ? "failed" : "killed");
    c.stat(isNew ? "found_new" : isOld ? "found_old" : "found_none");
    c.distinct(what);
  }
}

}  // namespace

int main(int argc, const char** argv) {
  return vh::run(argc, argv,
                 {{"raw", rawCase},
                  {"full", fullCase},
                  {"truncate", truncateCase},
                  {"damage", damageCase},
                  {"interrupt", interruptCase}});
}
