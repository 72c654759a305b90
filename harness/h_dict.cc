// C09: compiled dictionaries against the rows they were made of.
#include <fstream>

#include "vcore.h"

using namespace vc;
using vh::Ctx;
using vh::Msg;

namespace {

std::string vis(std::string s) {
  for (auto& ch : s) {
    if (ch == '\x01') ch = ';';
    if (ch == '\x04') ch = '/';
    if (ch == '\x02') ch = '~';
    if (ch == '\x03') ch = '^';
  }
  return s;
}

std::string specDump(const Env& env) {
  vh::Rng q(1);
  std::map<std::string, std::string> files;
  return env.specText.empty() ? vs::specText(env.w.spec, q, &files) : env.specText;
}

// every key of the index
void keys(const dic::DoubleArrayTraversal& at, std::string& pre, std::vector<std::pair<std::string, i32>>* out, size_t limit) {
  if (pre.size() > 20000 || out->size() > limit) return;
  for (int b = 1; b < 256; ++b) {
    auto t = at;
    char ch = (char)b;
    auto s = t.step(StringPiece{&ch, 1});
    if (s == dic::TraverseStatus::NoNode) continue;
    pre.push_back(ch);
    if (s == dic::TraverseStatus::Ok) out->push_back({pre, t.value()});
    keys(t, pre, out, limit);
    pre.pop_back();
  }
}

struct Truth {
  const vs::World& w;
  std::set<std::string> used;
  // surface -> rows of all entries
  std::map<std::string, std::vector<std::string>> want;
  std::map<std::string, size_t> entries;
  size_t rows = 0, aliases = 0;

  std::string val(int i, const vs::Field& f) const { return canonCell(f, w.dic.rows[i][f.col - 1]); }

  explicit Truth(const vs::World& w) : w(w), used(usedFields(w.spec)) {
    auto& s = w.spec;
    std::set<int> tmpl;
    for (auto& u : s.unks) tmpl.insert(u.row);
    Strs alias;
    if (s.train.empty()) alias.assign(used.begin(), used.end());
    else
      for (auto& t : s.train)
        if (t.weight16 != 0) alias.push_back(t.field);
    auto& tf = s.trieField();
    std::map<std::string, std::map<std::string, int>> first;
    for (int i = 0; i < (int)w.dic.rows.size(); ++i) {
      if (tmpl.count(i + 1)) continue;
      ++rows;
      const std::string& sf = w.dic.rows[i][tf.col - 1];
      std::string key;
      for (auto& a : alias) key += val(i, *s.field(a)) + "\x03";
      auto ins = first[sf].insert({key, i});
      if (!ins.second) ++aliases;
      else ++entries[sf];
      want[sf].push_back(text(ins.first->second, i));
    }
    for (auto& x : want) std::sort(x.second.begin(), x.second.end());
  }

  // the first row of an entry gives the values which are used for features
  std::string text(int from, int row) const {
    std::string o;
    for (auto& f : w.spec.fields) o += val(used.count(f.name) ? from : row, f) + "\x04";
    return o;
  }
};

void compare(Ctx& c, const Env& env, const CoreHolder& core, int entryCount, const spec::AnalysisSpec& spec,
             const std::string& how) {
  Truth t(env.w);
  auto ctx = [&](const std::string& x = "") {
    return how + " " + vis(x) + "\n" + specDump(env) + "\n--- dic\n" + env.csv.substr(0, 3000);
  };
  AnalyzerImpl an(&core, ScoringConfig{1, 1}, AnalyzerConfig{});
  auto& om = an.output();
  Reader rd(env.w.spec, om, c);
  auto entries = core.dic().entries();
  std::vector<std::pair<std::string, i32>> found;
  std::string pre;
  // an index without words answers nothing useful
  if (t.rows > 0) keys(entries.doubleArrayTraversal(), pre, &found, t.want.size() + 100);
  std::set<std::string> seen;
  std::set<i32> ptrs;
  for (auto& k : found) {
    auto it = t.want.find(k.first);
    if (it == t.want.end()) return c.viol("dict-extra-key", ctx(k.first));
    seen.insert(k.first);
    auto tr = entries.doubleArrayTraversal();
    if (tr.step(k.first) != dic::TraverseStatus::Ok || tr.value() != k.second)
      return c.viol("dict-key-unstable", ctx(k.first));
    auto e = entries.entryTraversal(tr);
    std::vector<std::string> got;
    size_t n = 0;
    size_t cnt = e.count();
    while (e.readOnePtr()) {
      ++n;
      auto p = e.currentPtr();
      if (!p.isDic() || p.isSpecial()) return c.viol("dict-pointer", ctx(k.first));
      if (!ptrs.insert(p.rawValue()).second) return c.viol("dict-shared-entry", ctx(k.first));
      auto w = om.nodeWalker();
      if (!om.locate(p, &w)) return c.viol("dict-locate", ctx(k.first));
      while (w.next()) {
        std::string o;
        for (auto& f : env.w.spec.fields) o += rd.value(f, w) + "\x04";
        got.push_back(o);
        c.stat("rows_compared");
        if (got.size() > it->second.size() + 5) return c.viol("dict-extra-rows", ctx(k.first));
      }
      // the same entry once more
      if (c.rng.chance(5)) {
        auto w2 = om.nodeWalker();
        if (!om.locate(p, &w2) || !w2.next()) return c.viol("dict-locate", ctx(k.first));
      }
    }
    if (n != cnt) return c.viol("dict-entry-count", ctx(Msg() << k.first << " " << n << " of " << cnt));
    if (n != t.entries[k.first])
      return c.viol("dict-entries", ctx(Msg() << k.first << " has " << n << " entries instead of " << t.entries[k.first]));
    std::sort(got.begin(), got.end());
    if (got != it->second) {
      std::string a, b;
      for (size_t i = 0; i < std::max(got.size(), it->second.size()); ++i) {
        bool same = i < got.size() && i < it->second.size() && got[i] == it->second[i];
        if (same) continue;
        if (i < got.size()) a = got[i];
        if (i < it->second.size()) b = it->second[i];
        break;
      }
      return c.viol("dict-rows", ctx(Msg() << k.first << ": " << a.substr(0, 500) << " expected " << b.substr(0, 500)));
    }
  }
  if (seen.size() != t.want.size())
    for (auto& x : t.want)
      if (!seen.count(x.first)) return c.viol("dict-missing-key", ctx(x.first));
  // entries of words which are also templates are not counted
  if (entryCount > (int)t.rows) c.viol("dict-count", ctx(Msg() << entryCount << " instead of " << t.rows));
  // rows used as templates for unknown words
  for (auto& u : spec.unkCreators) {
    if (u.patternRow < 1 || u.patternRow > (int)env.w.dic.rows.size()) continue;
    auto w = om.nodeWalker();
    if (!om.locate(EntryPtr{u.patternPtr}, &w) || !w.next()) return c.viol("dict-template", ctx(u.name));
    int r = u.patternRow - 1;
    std::string o;
    for (auto& f : env.w.spec.fields) o += rd.value(f, w) + "\x04";
    if (o != t.text(r, r)) return c.viol("dict-template", ctx(u.name + ": " + o + " expected " + t.text(r, r)));
    c.stat("templates_compared");
  }
  c.stat("dictionaries_compared");
  c.stat("variants_seen", t.aliases);
}

std::string hostileCell(vh::Rng& r, size_t max) {
  std::string o;
  static const char* const bits[] = {",", "\"", "\n", "\r", "\r\n", " ", ":", "*", "\"\"", "#", "\t", "あ", "漢字", "\xff", "\xe3\x81",
                                     "\x7f", "\x01", "0", "a", "𠮷", "\xef\xbb\xbf", "|", "-1", "99999999999"};
  size_t n = r.chance(50) ? r.below(4) : r.below(12);
  if (r.chance(4)) n = 100 + r.below(300);
  for (size_t i = 0; i < n; ++i) o += r.pick(bits);
  if (r.chance(2)) o += std::string(100 + r.below(70000), r.chance(50) ? 'x' : '\xe3');
  if (o.size() > max) o.resize(max);
  return o;
}

// values of all fields are replaced by arbitrary ones
void hostile(Ctx& c, vs::World& w) {
  auto& r = c.rng;
  auto& s = w.spec;
  auto& tf = s.trieField();
  std::map<std::string, Strs> pool;
  bool lists = r.chance(70);
  if (r.chance(60)) {
    // many rows, some equal
    size_t n = r.chance(10) ? 400 + r.below(2500) : r.below(120);
    for (size_t i = 0; i < n; ++i) {
      auto row = w.dic.rows[r.below(w.dic.rows.size())];
      if (r.chance(30)) row[tf.col - 1] += (char)('a' + r.below(26));
      if (r.chance(10)) row[tf.col - 1] = "w" + std::to_string(i);
      w.dic.rows.push_back(row);
    }
  }
  int lastTmpl = 0;
  for (auto& u : s.unks) lastTmpl = std::max(lastTmpl, u.row);
  for (size_t ri = 0; ri < w.dic.rows.size(); ++ri)
    for (auto& f : s.fields) {
      auto& v = w.dic.rows[ri][f.col - 1];
      if (!r.chance(f.trie ? 15 : 40)) continue;
      switch (f.type) {
        case 'S': {
          if (!pool[f.name].empty() && r.chance(30)) {
            v = r.pick(pool[f.name]);
            break;
          }
          v = hostileCell(r, 100000);
          if (f.trie) {
            if (v.size() > 3000) v.resize(3000);
            if (v.empty() || v == f.empty) v = "zz";
          }
          pool[f.name].push_back(v);
          break;
        }
        case 'I': {
          static const char* const ints[] = {"0", "1", "127", "128", "16383", "16384", "2097151", "2097152", "268435455", "268435456", "2147483647", "007", ""};
          v = r.chance(60) ? r.pick(ints) : std::to_string(r.below(0x80000000ull));
          break;
        }
        default: {
          if (!lists) break;
          v.clear();
          size_t n = r.chance(85) ? r.below(6) : r.below(400);
          for (size_t i = 0; i < n; ++i) {
            std::string e;
            if (!pool[f.name].empty() && r.chance(60)) e = r.pick(pool[f.name]);
            else {
              e = hostileCell(r, 20);
              if (e.empty()) e = "e" + std::to_string(r.below(300));
              pool[f.name].push_back(e);
            }
            if (i) v += f.lsep;
            v += e;
            if (f.type == 'K' && r.chance(70)) v += f.kvsep + (r.chance(90) ? "v" + std::to_string(r.below(50)) : hostileCell(r, 10));
          }
        }
      }
      // templates are identified by the line number
      if ((int)ri < lastTmpl) std::replace(v.begin(), v.end(), '\n', '_');
    }
}

bool makeSpec(Ctx& c, Env& env) {
  Status st = Status::Ok();
  if (env.w.spec.hasLow() || env.w.spec.hasForward() || c.rng.chance(50)) st = buildSpecDsl(env.w.spec, &env.spec);
  else st = buildSpecText(env.w.spec, c.rng, vh::G().tmpDir, &env.spec, &env.specText);
  if (!st) {
    c.viol("dict-spec", msg(st) + "\n" + specDump(env));
    return false;
  }
  return true;
}

vs::World makeWorld(Ctx& c) {
  vs::GenOpts o;
  o.maxFields = 4 + (int)c.rng.below(10);
  o.maxRows = c.rng.chance(80) ? 30 : 4;
  auto w = vs::genWorld(c.rng, o);
  fixWorld(w);
  return w;
}

// builds and compares both the dictionary in memory and the one in a file
void check(Ctx& c, Env& env) {
  {
    dic::DictionaryHolder h;
    auto st = h.load(env.builder.result());
    if (!st) return c.viol("dict-load", msg(st) + "\n" + specDump(env));
    CoreHolder core{env.builder.result().spec, h};
    if (!(st = core.initialize(nullptr))) return c.viol("dict-core", msg(st) + "\n" + specDump(env));
    compare(c, env, core, env.builder.result().entryCount, env.builder.result().spec, "built");
  }
  if (c.violations) return;
  auto st = env.finish(vh::G().tmpDir);
  if (!st) return c.viol("dict-file", msg(st) + "\n" + specDump(env));
  compare(c, env, *env.core, env.restored.entryCount, env.restored.spec, "file");
}

void rowsCase(Ctx& c) {
  Env env;
  env.w = makeWorld(c);
  if (c.rng.chance(85)) hostile(c, env.w);
  if (!makeSpec(c, env)) return;
  env.csv = vs::csvText(env.w.dic.rows, &c.rng, c.rng.chance(80));
  auto st = env.builder.importSpec(&env.spec);
  if (st) st = env.builder.importCsv("dic", env.csv);
  bool big = false;
  for (auto& x : env.w.dic.rows)
    for (auto& v : x) big |= v.size() > 7000;
  if (!st && big) return c.stat("long_cells_rejected");
  if (!st) return c.viol("dict-rejected", msg(st) + "\n" + specDump(env) + "\n--- dic\n" + env.csv.substr(0, 3000));
  c.distinct(env.csv);
  check(c, env);
}

// ------------------------------------------------------------- damaged input

bool intOk(const std::string& v) {
  if (v.empty()) return true;
  if (v.size() > 15) return false;
  for (char ch : v)
    if (ch < '0' || ch > '9') return false;
  return strtoll(v.c_str(), nullptr, 10) <= 0x7fffffffll;
}

void badCase(Ctx& c) {
  auto& r = c.rng;
  Env env;
  env.w = makeWorld(c);
  auto& s = env.w.spec;
  auto& tf = s.trieField();
  if (r.chance(40)) hostile(c, env.w);
  if (env.w.dic.rows.size() > 150) env.w.dic.rows.resize(150);
  if (!makeSpec(c, env)) return;
  env.csv = vs::csvText(env.w.dic.rows, &r, r.chance(80));
  std::string what;
  bool text = false;
  int row = (int)r.below(env.w.dic.rows.size());
  if (r.chance(70)) {
    // one damaged cell
    auto& cells = env.w.dic.rows[row];
    auto& f = r.pick(s.fields);
    auto& v = cells[f.col - 1];
    switch (r.below(6)) {
      case 0: {
        int maxCol = 0;
        for (auto& x : s.fields) maxCol = std::max(maxCol, x.col);
        cells.resize(r.below(maxCol));
        if (cells.empty()) cells.push_back("");
        what = "columns";
        break;
      }
      case 1: {
        static const char* const bad[] = {"12a", "a", "-1", " 1", "1 ", "+5", "2147483648", "4294967296", "4294967297", "18446744073709551616",
                                          "99999999999999999999999", "1.5", "0x10", "１", "1,2", "\xff", "--", "1e3", "00000000000000000000001"};
        const vs::Field* x = nullptr;
        for (auto& q : s.fields)
          if (q.type == 'I') x = &q;
        if (!x) return;
        cells[x->col - 1] = r.pick(bad);
        what = "number";
        break;
      }
      case 2:
        cells[tf.col - 1] = "";
        what = "surface";
        break;
      case 3:
        if (!tf.hasEmpty) return;
        cells[tf.col - 1] = tf.empty;
        what = "surface-marker";
        break;
      case 4:
        v = hostileCell(r, 10) + std::string(1, '\0') + hostileCell(r, 10);
        what = "nul";
        break;
      default:
        v = std::string((1u << 20) - 10 + r.below(20), 'q') + hostileCell(r, 10);
        if (r.chance(30)) v += v;
        if (r.chance(40)) v.resize(4000 + r.below(40000));
        what = "long";
    }
    if (env.w.dic.rows.size() == 1 && what == "columns") return;
    env.csv = vs::csvText(env.w.dic.rows, &r, r.chance(80));
  } else {
    int n = 1 + (int)r.skewed(4);
    for (int i = 0; i < n; ++i) {
      size_t at = r.below(env.csv.size());
      switch (r.below(5)) {
        case 0: env.csv.insert(at, "\""); break;
        case 1: env.csv.erase(at, 1 + r.skewed(5)); break;
        case 2: env.csv[at] = "\",\n\r a1"[r.below(7)]; break;
        case 3: env.csv.resize(at + 1); break;
        default: env.csv.insert(at, std::string(1 + r.skewed(3), ",\n\"\r"[r.below(4)]));
      }
      if (env.csv.empty()) env.csv = "\n";
    }
    what = "text";
    text = true;
  }
  auto p = vt::parseCsv(env.csv, ',', '"');
  bool mustFail = !p.ok;
  std::string reason = p.ok ? "" : "malformed csv";
  env.w.dic.rows = p.rows;
  int maxCol = 0;
  for (auto& x : s.fields) maxCol = std::max(maxCol, x.col);
  bool marker = false;
  std::set<int> tmpl;
  for (auto& u : s.unks) tmpl.insert(u.row);
  bool maybe = false;
  for (size_t i = 0; i < p.rows.size(); ++i) {
    auto& x = p.rows[i];
    if ((int)x.size() < maxCol) {
      mustFail = true;
      reason = "missing columns";
      continue;
    }
    for (auto& f : s.fields) {
      auto& v = x[f.col - 1];
      if (f.type == 'I' && !intOk(v)) {
        // too many digits of a small number
        if (v.find_first_not_of("0123456789") == std::string::npos && strtoull(v.c_str(), nullptr, 10) <= 0x7fffffff) maybe = true;
        else {
          mustFail = true;
          reason = "not a number";
        }
      }
      if (f.trie && !tmpl.count((int)i + 1) && (v.empty() || (f.hasEmpty && v == f.empty))) {
        mustFail = true;
        reason = "row without a surface";
      }
      if (f.trie && v.find('\0') != std::string::npos) maybe = true;
      if (v.size() > 4000) maybe = true;
    }
  }
  (void)marker;
  // templates are identified by the line number
  bool shifted = false;
  for (auto& u : s.unks) {
    if (u.row > (int)p.rows.size()) {
      mustFail = true;
      reason = "no row for a template";
    }
    for (int i = 0; i < u.row && i < (int)p.rows.size(); ++i)
      for (auto& v : p.rows[i]) shifted |= v.find('\n') != std::string::npos;
  }
  Status st = Status::Ok();
  st = env.builder.importSpec(&env.spec);
  if (st) st = env.builder.importCsv("dic", env.csv);
  auto ctx = [&] {
    return what + " at row " + std::to_string(row + 1) + " " + reason + "\n" + specDump(env) + "\n--- dic\n" + env.csv.substr(0, 3000);
  };
  if (shifted) return c.stat("templates_shifted");
  // a carriage return at the beginning of a row is not data
  if (text && env.csv.find('\r') != std::string::npos) return c.stat("carriage_returns");
  c.distinct(env.csv);
  c.stat("damaged_" + what);
  if (!st) {
    c.stat("rejected_" + what);
    if (!mustFail && !maybe) c.viol("dict-rejects-" + what, msg(st) + "\n" + ctx());
    if (msg(st).empty()) c.viol("dict-no-message", ctx());
    return;
  }
  if (mustFail) return c.viol("dict-accepts-" + what, ctx());
  (void)text;
  c.stat("accepted_" + what);
  check(c, env);
}

}  // namespace

int main(int argc, const char** argv) {
  std::map<std::string, vh::CaseFn> fns;
  fns["rows"] = rowsCase;
  fns["bad"] = badCase;
  return vh::run(argc, argv, fns);
}
