// Abstract description of a specification + dictionary, random generation of
// both, and the two ways to hand a specification to the library (text, DSL).
// Nothing here depends on the internals of the library.
#ifndef VERIF_VSPEC_H
#define VERIF_VSPEC_H

#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "vh.h"
#include "vtext.h"

namespace vs {

using Strs = std::vector<std::string>;

struct Field {
  int col = 1;
  std::string name;
  char type = 'S';  // S string, I int, L list, K key-value list
  bool trie = false;
  bool hasEmpty = false;
  std::string empty;
  std::string storage;
  int align = 0;
  std::string lsep = " ", kvsep = ":";
};

enum FK { Placeholder, NumBytes, NumCps, Cp, CpType, Match };

struct Feature {
  std::string name;
  FK kind = Placeholder;
  std::string field;          // NumBytes, NumCps
  int off = 0;                // Cp, CpType
  Strs mfields;               // Match
  std::vector<Strs> mrows;    // Match: rows of the csv
  bool brackets = false;      // text: write [f] instead of f
  bool viaFile = false;       // text: data in a file
  Strs thenF, elseF;
};

struct Ngram {
  std::vector<Strs> t;  // t[0] = current word, t[1] previous, t[2] before that
};

struct Unk {
  std::string name;
  int row = 1;
  char type = 's';  // s single, c chunking, o onomatopoeia, n numeric, z normalize
  std::vector<std::string> classNames;
  int cls = 0;
  std::string featTo;
  Strs surfTo;
  bool low = false;
};

struct TrainF {
  std::string field;
  int weight16 = 16;  // in 1/16ths
};

struct Spec {
  std::vector<Field> fields;
  std::vector<Feature> features;
  std::vector<Ngram> ngrams;
  std::vector<Unk> unks;
  std::vector<TrainF> train;
  struct Gold { std::string target, src, key; };
  std::vector<Gold> gold;
  int ncols = 1;

  const Field* field(const std::string& n) const {
    for (auto& f : fields)
      if (f.name == n) return &f;
    return nullptr;
  }
  const Feature* feature(const std::string& n) const {
    for (auto& f : features)
      if (f.name == n) return &f;
    return nullptr;
  }
  const Field& trieField() const {
    for (auto& f : fields)
      if (f.trie) return f;
    return fields[0];
  }
  // storage of a field declared later: not possible in the text language
  bool hasForward() const {
    std::set<std::string> seen;
    for (auto& f : fields) {
      seen.insert(f.name);
      if (!f.storage.empty() && !seen.count(f.storage)) return true;
    }
    return false;
  }
  bool hasLow() const {
    for (auto& u : unks)
      if (u.low) return true;
    return false;
  }
};

struct Dic {
  std::vector<Strs> rows;  // full rows, ncols cells
};

inline std::string weightStr(int w16) {
  char b[32];
  int a = w16 < 0 ? -w16 : w16;
  snprintf(b, sizeof b, "%s%d.%04d", w16 < 0 ? "-" : "", a / 16,
           (a % 16) * 625);
  return b;
}

inline std::string csvCell(const std::string& s, vh::Rng* r = nullptr) {
  bool need = s.find_first_of(",\"\n\r") != std::string::npos;
  if (!need && !(r && r->chance(5))) return s;
  std::string q = "\"";
  for (char c : s) {
    if (c == '"') q += '"';
    q += c;
  }
  return q + "\"";
}

inline std::string csvRow(const Strs& cells, vh::Rng* r = nullptr) {
  std::string o;
  for (size_t i = 0; i < cells.size(); ++i) {
    if (i) o += ',';
    o += csvCell(cells[i], r);
  }
  return o;
}

inline std::string csvText(const std::vector<Strs>& rows, vh::Rng* r = nullptr,
                           bool finalNl = true) {
  std::string o;
  for (size_t i = 0; i < rows.size(); ++i) {
    o += csvRow(rows[i], r);
    if (i + 1 < rows.size() || finalNl) o += '\n';
  }
  return o;
}

// whether the last specText contained a doubled quote
inline bool& quoteUsed() {
  static bool v = false;
  return v;
}

inline std::string qstr(const std::string& s) {
  std::string q = "\"";
  for (char c : s) {
    if (c == '"') {
      q += '"';
      quoteUsed() = true;
    }
    q += c;
  }
  return q + "\"";
}

inline std::string brList(const Strs& l, const char* sep = ", ") {
  std::string o = "[";
  for (size_t i = 0; i < l.size(); ++i) {
    if (i) o += sep;
    o += l[i];
  }
  return o + "]";
}

// textual form. files: name -> content for `file "..."` data
inline std::string specText(const Spec& s, vh::Rng& r,
                            std::map<std::string, std::string>* files) {
  std::string o;
  auto ws = [&]() -> std::string {
    switch (r.below(12)) {
      case 0: return "  ";
      case 1: return "\t";
      case 2: return "\n    ";
      case 3: return " # remark \"[\n ";
      default: return " ";
    }
  };
  auto kw = [&](const std::string& k) {
    std::string t = k;
    if (r.chance(10))
      for (auto& c : t) c = (char)toupper(c);
    return t;
  };
  if (r.chance(30)) o += "# a specification\n";
  for (auto& f : s.fields) {
    o += kw("field") + ws() + std::to_string(f.col) + ws() + f.name + ws();
    o += kw(f.type == 'S' ? "string" : f.type == 'I' ? "int" :
            f.type == 'L' ? "string_list" : "kv_list");
    Strs flags;
    if (f.trie) flags.push_back(kw("trie_index"));
    if (f.hasEmpty) flags.push_back(kw("empty") + ws() + qstr(f.empty));
    if (!f.storage.empty()) flags.push_back(kw("storage") + ws() + f.storage);
    if (f.align) flags.push_back(kw("align") + ws() + std::to_string(f.align));
    if (f.lsep != " ") flags.push_back(kw("list_sep") + ws() + qstr(f.lsep));
    if (f.kvsep != ":") flags.push_back(kw("kv_sep") + ws() + qstr(f.kvsep));
    r.shuffle(flags);
    for (auto& x : flags) o += ws() + x;
    o += "\n";
  }
  int fileNo = 0;
  for (auto& f : s.features) {
    o += kw("feature") + ws() + f.name + " = ";
    switch (f.kind) {
      case Placeholder: o += kw("placeholder"); break;
      case NumBytes: o += kw("num_bytes") + ws() + f.field; break;
      case NumCps: o += kw("num_codepoints") + ws() + f.field; break;
      case Cp: o += kw("codepoint") + ws() + std::to_string(f.off); break;
      case CpType: o += kw("codepoint_type") + ws() + std::to_string(f.off); break;
      case Match: {
        o += kw("match") + ws();
        if (f.mfields.size() == 1 && !f.brackets) o += f.mfields[0];
        else o += brList(f.mfields);
        o += ws() + kw("with") + ws();
        std::string csv = csvText(f.mrows, nullptr, f.mrows.size() > 1);
        if (f.viaFile) {
          std::string name = "data" + std::to_string(fileNo++) + ".csv";
          (*files)[name] = csv;
          o += kw("file") + ws() + qstr(name);
        } else {
          o += qstr(csv);
        }
        if (!f.thenF.empty()) {
          o += ws() + kw("then") + ws() + brList(f.thenF) + ws() + kw("else") +
               ws() + brList(f.elseF);
        }
        break;
      }
    }
    o += "\n";
  }
  for (auto& n : s.ngrams) {
    o += kw("ngram");
    for (size_t i = n.t.size(); i-- > 0;) o += ws() + brList(n.t[i]);
    o += "\n";
  }
  for (auto& u : s.unks) {
    o += kw("unk") + ws() + u.name + ws() + kw("template row") + ws() +
         std::to_string(u.row) + ":" + ws();
    std::string cls;
    for (size_t i = 0; i < u.classNames.size(); ++i) {
      if (i) cls += r.chance(50) ? " | " : "|";
      cls += u.classNames[i];
    }
    switch (u.type) {
      case 's': o += kw("single") + ws() + cls; break;
      case 'c': o += kw("chunking") + ws() + cls; break;
      case 'o': o += kw("onomatopeia") + ws() + cls; break;
      case 'n': o += kw("numeric") + ws() + cls; break;
      case 'z': o += kw("normalize"); break;
    }
    Strs outs;
    if (!u.featTo.empty()) outs.push_back(kw("feature to") + ws() + u.featTo);
    if (!u.surfTo.empty()) outs.push_back(kw("surface to") + ws() + brList(u.surfTo));
    r.shuffle(outs);
    for (auto& x : outs) o += ws() + x;
    o += "\n";
  }
  if (!s.train.empty()) {
    o += kw("train") + ws() + (r.chance(50) ? kw("loss") + ws() : "");
    for (size_t i = 0; i < s.train.size(); ++i) {
      if (i) o += ",";
      o += (i ? ws() : "") + s.train[i].field + " " + weightStr(s.train[i].weight16);
    }
    for (auto& g : s.gold) {
      o += ws() + kw("unk_gold_if") + ws() + g.src + "[" + qstr(g.key) +
           "] == " + g.target;
    }
    o += "\n";
  }
  return o;
}

// ---------------------------------------------------------------- generation

struct ClassName {
  const char* name;
  int value;
};

inline const std::vector<ClassName>& classNames() {
  static const std::vector<ClassName> v = {
      {"SPACE", 1}, {"IDEOGRAPHIC_PUNC", 2}, {"KANJI", 4}, {"FIGURE", 8},
      {"PERIOD", 0x10}, {"MIDDLE_DOT", 0x20}, {"COMMA", 0x40}, {"ALPH", 0x80},
      {"SYMBOL", 0x100}, {"KATAKANA", 0x200}, {"HIRAGANA", 0x400},
      {"KANJI_FIGURE", 0x800}, {"SLASH", 0x1000}, {"COLON", 0x2000},
      {"ERA", 0x4000}, {"CHOON", 0x8000}, {"HANKAKU_KANA", 0x10000},
      {"BRACKET", 0x20000}, {"FIGURE_EXCEPTION", 0x40000},
      {"FIGURE_DIGIT", 0x80000}, {"SMALL_KANA", 0x100000},
      {"FAMILY_FIGURE", 8 | 0x10 | 0x20 | 0x800 | 0x1000 | 0x2000},
      {"FAMILY_PUNC", 0x10 | 0x40 | 2},
      {"FAMILY_ALPH_PUNC", 0x80 | 0x10 | 0x1000 | 0x2000 | 0x20},
      {"FAMILY_NUM_PERIOD", 0x10 | 0x20},
      {"FAMILY_PUNC_SYMBOL", 0x10 | 0x40 | 2 | 0x20 | 0x100 | 0x1000 | 0x2000},
      {"FAMILY_SPACE", 1}, {"FAMILY_SYMBOL", 0x100}, {"FAMILY_ALPH", 0x80},
      {"FAMILY_KANJI", 4 | 0x800},
      {"FAMILY_KANA", 0x200 | 0x400 | 0x10000 | 0x100000},
      {"FAMILY_DOUBLE", 0x200 | 0x400 | 0x10000 | 0x100000 | 4 | 0x8000},
      {"FAMILY_BRACKET", 0x20000},
      {"FAMILY_DIGITS", 8 | 0x800 | 0x80000},
      {"FAMILY_EXCEPTION", 8 | 0x800 | 0x40000}};
  return v;
}

// alphabets: groups of characters which make the unknown word rules fire
inline Strs makeAlphabet(vh::Rng& r) {
  static const std::vector<Strs> groups = {
      {"a", "b", "c"},
      {"あ", "い", "か", "ん"},
      {"ア", "カ", "ン", "ー"},
      {"漢", "字", "桜"},
      {"1", "2", "５", "０", ",", ".", "．", "，"},
      {"一", "二", "十", "百", "数", "何", "分", "の", "ぶ"},
      {"キ", "ロ", "メ", "ガ", "ミ", "リ", "5", "三"},
      {"ね", "え", "ー", "ぇ", "っ", "さ", "ん"},
      {"か", "ぁ", "っ", "ー", "〜", "き", "ッ"},
      {"ま", "う", "ー", "お", "と", "ぅ"},
      {"！", "。", "「", "・", "/", ":"},
      {"😀", "𠮷", "é", "㍻", "ｱ", " ", "　"},
      {"ケ", "ヶ", "月", "わ", "ゎ"}};
  Strs a;
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; ++i) {
    auto g = r.pick(groups);
    int take = 2 + (int)r.below(g.size() - 1);
    r.shuffle(g);
    for (int j = 0; j < take && j < (int)g.size(); ++j) a.push_back(g[j]);
  }
  if (r.chance(15)) a.push_back(vt::randomChar(r));
  // characters that may not be in a dictionary surface
  Strs res;
  for (auto& x : a) {
    if (x != "\n" && x != std::string(1, '\0') &&
        std::find(res.begin(), res.end(), x) == res.end())
      res.push_back(x);
  }
  return res;
}

inline std::string randWord(vh::Rng& r, const Strs& al, int maxLen) {
  std::string w;
  int n = 1 + (int)r.skewed(maxLen - 1);
  for (int i = 0; i < n; ++i) w += r.pick(al);
  return w;
}

struct GenOpts {
  bool lists = true;
  bool train = true;
  int trainChance = 55;
  bool lowPriority = true;
  int maxRows = 24;
  int maxFields = 7;
  int maxNgrams = 14;
  bool weirdSeps = true;
};

struct World {
  Spec spec;
  Dic dic;
  Strs alphabet;
  Strs words;                              // dictionary surfaces
  std::map<std::string, Strs> pools;       // per storage: value pool
};

inline std::string randIdent(vh::Rng& r, const char* p, int i) {
  static const char* const tails[] = {"", "_x", "Pos", "A1", "_"};
  return std::string(p) + std::to_string(i) + r.pick(tails);
}

inline World genWorld(vh::Rng& r, const GenOpts& o) {
  World w;
  Spec& s = w.spec;
  w.alphabet = makeAlphabet(r);

  // ---- fields
  int nf = 1 + (int)r.below((uint64_t)o.maxFields);
  std::vector<int> cols;
  int maxCol = nf + (int)r.below(3);
  for (int i = 1; i <= maxCol; ++i) cols.push_back(i);
  if (r.chance(70)) r.shuffle(cols);
  int trie = (int)r.below((uint64_t)nf);
  if (r.chance(50)) trie = 0;
  for (int i = 0; i < nf; ++i) {
    Field f;
    f.col = cols[i];
    f.name = randIdent(r, "f", i);
    f.type = 'S';
    if (i == trie) {
      f.trie = true;
    } else {
      int k = (int)r.below(100);
      if (k < 12) f.type = 'I';
      else if (k < 26 && o.lists) f.type = 'L';
      else if (k < 40 && o.lists) f.type = 'K';
    }
    if (f.type != 'I' && r.chance(40)) {
      static const char* const em[] = {"*", "NIL", "", "空", "a,b", "x\"y"};
      f.hasEmpty = true;
      f.empty = r.pick(em);
    }
    if (f.type != 'I' && r.chance(20)) f.align = (int)r.below(5);
    if ((f.type == 'L' || f.type == 'K') && o.weirdSeps && r.chance(40)) {
      static const char* const ls[] = {";", "/", "|", ",", "::", "、"};
      f.lsep = r.pick(ls);
    }
    if (f.type == 'K' && r.chance(30)) {
      static const char* const ks[] = {"=", "->", "："};
      f.kvsep = r.pick(ks);
    }
    s.fields.push_back(f);
  }
  s.ncols = 0;
  for (auto& f : s.fields) s.ncols = std::max(s.ncols, f.col);
  s.ncols += (int)r.below(2);
  // shared storage: refers to another field which owns its storage
  for (auto& f : s.fields) {
    if (f.type == 'I' || f.align || f.hasEmpty * r.chance(50)) continue;
    if (!r.chance(30)) continue;
    auto& g = r.pick(s.fields);
    if (g.name == f.name || g.type == 'I' || !g.storage.empty()) continue;
    bool referred = false;
    for (auto& h : s.fields) referred |= h.storage == f.name;
    if (referred) continue;
    f.storage = g.name;
  }

  // ---- value pools (per storage owner)
  static const char* const vals[] = {"名詞", "動詞", "a", "b", "c", "x,y",
                                     "q\"q", "sp ace", "A-1", "長い値長い値長い値",
                                     "k1", "k2", "v1", "ん", "1", "*", "#", "é"};
  for (auto& f : s.fields) {
    auto own = f.storage.empty() ? f.name : f.storage;
    auto& p = w.pools[own];
    int n = 2 + (int)r.below(4);
    for (int i = 0; i < n; ++i) p.push_back(r.pick(vals));
  }
  auto pool = [&](const Field& f) -> Strs& {
    return w.pools[f.storage.empty() ? f.name : f.storage];
  };
  auto listItem = [&](const Field& f) {
    for (;;) {
      std::string v = r.pick(pool(f));
      if (f.type == 'L' || f.type == 'K')
        if (v.find(f.lsep) != std::string::npos || v.find('"') != std::string::npos) v = "li";
      if (f.type == 'K' && v.find(f.kvsep) != std::string::npos) v = "ke";
      return v;
    }
  };
  auto cell = [&](const Field& f) -> std::string {
    if (f.type == 'I') {
      if (r.chance(15)) return "";
      if (r.chance(10)) return "007";
      if (r.chance(10)) return std::to_string(r.below(2147483648ull));
      return std::to_string(r.below(30));
    }
    if (r.chance(15)) return f.hasEmpty ? f.empty : "";
    if (r.chance(4)) return "";
    if (f.type == 'S') return r.pick(pool(f));
    std::string c;
    int n = 1 + (int)r.below(4);
    for (int i = 0; i < n; ++i) {
      if (i) c += f.lsep;
      std::string it = listItem(f);
      if (f.type == 'K' && r.chance(65)) it += f.kvsep + listItem(f);
      c += it;
    }
    return c;
  };

  // ---- rows
  int nrows = 2 + (int)r.skewed(o.maxRows);
  const Field& tf = s.trieField();
  for (int i = 0; i < nrows; ++i) {
    Strs row(s.ncols);
    for (auto& c : row) c = r.chance(50) ? "junk" : r.chance(50) ? "" : "j,\"k";
    if (i > 0 && r.chance(35)) {
      row = r.pick(w.dic.rows);  // near duplicate: aliasing candidates
      int k = (int)r.below(3);
      for (int j = 0; j < k; ++j) {
        auto& f = r.pick(s.fields);
        if (!f.trie) row[f.col - 1] = cell(f);
      }
    } else {
      for (auto& f : s.fields) row[f.col - 1] = cell(f);
      std::string wd;
      if (i > 0 && r.chance(25)) wd = r.pick(w.dic.rows)[tf.col - 1];
      else if (i > 0 && r.chance(25))
        wd = r.pick(w.dic.rows)[tf.col - 1] + randWord(r, w.alphabet, 2);
      else wd = randWord(r, w.alphabet, 4);
      if (wd.size() > 60 || (tf.hasEmpty && wd == tf.empty)) wd = w.alphabet[0];
      if (tf.hasEmpty && wd == tf.empty) wd = w.alphabet[0] + w.alphabet[0];
      row[tf.col - 1] = wd;
    }
    w.dic.rows.push_back(row);
  }
  {
    std::set<std::string> ws;
    for (auto& x : w.dic.rows) ws.insert(x[tf.col - 1]);
    w.words.assign(ws.begin(), ws.end());
  }

  // ---- features
  auto strFields = [&]() {
    std::vector<const Field*> v;
    for (auto& f : s.fields)
      if (f.type == 'S') v.push_back(&f);
    return v;
  }();
  std::vector<const Field*> direct;
  for (auto& f : s.fields)
    if (f.type == 'S' || f.type == 'I') direct.push_back(&f);

  int nfeat = (int)r.below(8);
  int autogen = 0;
  for (int i = 0; i < nfeat; ++i) {
    Feature f;
    f.name = randIdent(r, "ft", i);
    int k = (int)r.below(100);
    if (k < 15) {
      f.kind = Placeholder;
    } else if (k < 27) {
      f.kind = NumBytes;
      f.field = r.pick(strFields)->name;
    } else if (k < 40) {
      f.kind = NumCps;
      f.field = r.pick(strFields)->name;
    } else if (k < 52) {
      f.kind = Cp;
      static const int offs[] = {1, 2, 3, -1, -2, -3, 12};
      f.off = r.pick(offs);
    } else if (k < 64) {
      f.kind = CpType;
      static const int offs[] = {0, 0, 1, 2, -1, -2};
      f.off = r.pick(offs);
    } else {
      f.kind = Match;
      ++autogen;
      std::vector<const Field*> lists;
      for (auto& x : s.fields)
        if (x.type == 'K' || x.type == 'L')
          if (x.lsep.size() == 1) lists.push_back(&x);
      auto value = [&](const Field& x) {
        for (int t = 0; t < 20; ++t) {
          std::string v = r.chance(80) ? r.pick(w.dic.rows)[x.col - 1] : r.pick(pool(x));
          if (x.type == 'S') {
            if (!v.empty() && !(x.hasEmpty && v == x.empty)) return v;
          }
        }
        return std::string("zz");
      };
      if (!lists.empty() && r.chance(40)) {
        auto x = r.pick(lists);
        f.mfields = {x->name};
        std::string v = listItem(*x);
        for (int t = 0; t < 10 && v.find_first_of(",\n\"") != std::string::npos; ++t)
          v = listItem(*x);
        if (v.find_first_of(",\n\"") != std::string::npos || v.empty()) v = "k1";
        if (x->hasEmpty && v == x->empty) v = "k9";
        f.mrows = {{v}};
      } else {
        int nm = 1 + (int)r.below(std::min<uint64_t>(3, strFields.size()));
        auto sf = strFields;
        r.shuffle(sf);
        for (int j = 0; j < nm; ++j) f.mfields.push_back(sf[j]->name);
        int nr = 1 + (int)r.skewed(4);
        for (int j = 0; j < nr; ++j) {
          Strs row;
          if (r.chance(70)) {
            auto& src = r.pick(w.dic.rows);
            bool ok = true;
            for (auto& n : f.mfields) {
              auto& x = *s.field(n);
              std::string v = src[x.col - 1];
              if (v.empty() || (x.hasEmpty && v == x.empty)) ok = false;
              row.push_back(v);
            }
            if (!ok) row.clear();
          }
          if (row.empty())
            for (auto& n : f.mfields) row.push_back(value(*s.field(n)));
          f.mrows.push_back(row);
        }
        f.brackets = r.chance(50);
      }
      f.viaFile = r.chance(20);
      if (r.chance(45) && !direct.empty()) {
        auto some = [&]() {
          Strs v;
          int n = 1 + (int)r.below(3);
          for (int j = 0; j < n; ++j) v.push_back(r.pick(direct)->name);
          return v;
        };
        f.thenF = some();
        f.elseF = some();
      }
    }
    s.features.push_back(f);
  }

  // ---- n-grams
  Strs atoms;
  for (auto f : direct) atoms.push_back(f->name);
  for (auto& f : s.features) {
    atoms.push_back(f.name);
    if (r.chance(50)) atoms.push_back(f.name);
  }
  auto tmpl = [&]() {
    Strs v;
    int n = 1 + (int)r.skewed(3);
    for (int j = 0; j < n; ++j) {
      auto a = r.pick(atoms);
      if (std::find(v.begin(), v.end(), a) == v.end()) v.push_back(a);
    }
    return v;
  };
  int nn = 1 + (int)r.below((uint64_t)o.maxNgrams);
  std::vector<Strs> reuse;
  auto tm = [&]() {
    if (!reuse.empty() && r.chance(40)) return r.pick(reuse);
    reuse.push_back(tmpl());
    return reuse.back();
  };
  std::set<std::vector<Strs>> seen;
  int order0 = (int)r.below(4);
  for (int i = 0; i < nn; ++i) {
    Ngram n;
    int ord = order0 == 3 || r.chance(40) ? 1 + (int)r.below(3) : 1 + order0;
    for (int j = 0; j < ord; ++j) n.t.push_back(tm());
    if (!seen.insert(n.t).second) continue;
    s.ngrams.push_back(n);
  }
  // the key field must be used
  {
    Ngram n;
    n.t.push_back({tf.name});
    if (r.chance(40)) n.t.push_back({r.pick(atoms)});
    if (seen.insert(n.t).second) s.ngrams.insert(s.ngrams.begin() + r.below(s.ngrams.size() + 1), n);
  }

  // ---- training section (decides what is merged)
  if (o.train && r.chance(o.trainChance)) {
    s.train.push_back({tf.name, 16});
    auto d = direct;
    r.shuffle(d);
    for (auto f : d) {
      if (f->name == tf.name || !r.chance(60)) continue;
      s.train.push_back({f->name, (int)r.below(40)});
    }
  }

  // ---- unknown words
  int nu = (int)r.below(6);
  if (r.chance(70)) nu = std::max(nu, 1);
  Strs phs;
  for (auto& f : s.features)
    if (f.kind == Placeholder) phs.push_back(f.name);
  for (int i = 0; i < nu; ++i) {
    Unk u;
    u.name = randIdent(r, "unk", i);
    static const char types[] = {'s', 'c', 'c', 'o', 'n', 'n', 'z', 'z'};
    u.type = r.pick(types);
    u.row = 1 + (int)r.below((uint64_t)nrows);
    if (r.chance(60)) u.row = 1 + (int)r.below((uint64_t)std::min(nrows, 3));
    auto pickClass = [&](const char* n) {
      for (auto& c : classNames())
        if (std::string(c.name) == n) {
          u.classNames.push_back(c.name);
          u.cls |= c.value;
        }
    };
    if (u.type == 'n') {
      if (r.chance(60)) pickClass("FAMILY_DIGITS");
      else if (r.chance(50)) pickClass("FAMILY_FIGURE");
      else pickClass("FIGURE");
    } else if (u.type == 'o') {
      if (r.chance(50)) pickClass("HIRAGANA");
      if (r.chance(50) || u.cls == 0) pickClass("FAMILY_KANA");
    } else if (u.type != 'z') {
      int n = 1 + (int)r.below(3);
      static const char* const common[] = {"KANJI", "HIRAGANA", "KATAKANA",
          "ALPH", "FAMILY_FIGURE", "FAMILY_KANA", "FAMILY_DIGITS", "SYMBOL",
          "FAMILY_DOUBLE", "FAMILY_PUNC"};
      for (int j = 0; j < n; ++j) {
        if (r.chance(70)) pickClass(r.pick(common));
        else pickClass(r.pick(classNames()).name);
      }
    }
    if (!phs.empty() && r.chance(60)) u.featTo = r.pick(phs);
    if (r.chance(90)) u.surfTo.push_back(tf.name);
    for (auto f : strFields)
      if (f->name != tf.name && r.chance(20)) u.surfTo.push_back(f->name);
    if (o.lowPriority && r.chance(25)) u.low = true;
    s.unks.push_back(u);
  }
  // mostly every sentence can be analysed
  if (r.chance(75)) {
    Unk u;
    u.name = "unkAny";
    u.type = r.chance(70) ? 's' : 'c';
    for (auto& c : classNames())
      if ((c.value & (c.value - 1)) == 0) {
        u.classNames.push_back(c.name);
        u.cls |= c.value;
      }
    u.row = 1 + (int)r.below((uint64_t)nrows);
    u.surfTo.push_back(tf.name);
    if (!phs.empty() && r.chance(40)) u.featTo = r.pick(phs);
    u.low = o.lowPriority && r.chance(30);
    s.unks.push_back(u);
  }
  // a dictionary needs a word which is not a template
  {
    std::set<int> t;
    for (auto& u : s.unks) t.insert(u.row);
    if (t.size() >= w.dic.rows.size()) w.dic.rows.push_back(w.dic.rows[0]);
  }
  return w;
}

inline std::string randSentence(vh::Rng& r, const World& w, int maxUnits) {
  std::string s;
  int n = 1 + (int)r.skewed(maxUnits - 1);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(100);
    if (k < 45 && !w.words.empty()) s += r.pick(w.words);
    else if (k < 85) s += r.pick(w.alphabet);
    else if (k < 92) {
      auto x = randWord(r, w.alphabet, 3);
      s += x + x;  // reduplication
    } else s += vt::randomChar(r);
  }
  std::string t;
  for (char c : s)
    if (c != '\n' && c != '\0') t += c;
  return t.empty() ? w.alphabet[0] : t;
}

}  // namespace vs
#endif
