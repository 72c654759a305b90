// C11: specifications as text, as code and after serialization.
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unistd.h>

#include <fstream>

#include "core/spec/spec_hashing.h"
#include "core/spec/spec_serialization.h"
#include "vcore.h"

using namespace vc;
using vh::Ctx;
using vh::Msg;
using vh::Rng;
using std::string;
using spec::AnalysisSpec;

namespace {

template <typename T>
string ints(const std::vector<T>& v) {
  Msg o;
  for (auto& x : v) o << x << " ";
  return o;
}

// everything that is in a compiled specification, line by line
string dump(const AnalysisSpec& s, bool restored) {
  Msg o;
  o << "version " << s.specVersion_ << " " << s.specMagic_ << " " << s.specMagic2_ << "\n";
  auto& d = s.dictionary;
  o << "dic " << d.indexColumn << " " << d.numIntStorage << " " << d.numStringStorage << " | " << ints(d.aliasingSet) << "\n";
  for (auto& f : d.fields)
    o << "field " << f.specIndex << " " << f.position << " " << f.dicIndex << " " << f.name << " " << f.isTrieKey << " "
      << (int)f.fieldType << " [" << f.emptyString << "][" << f.listSeparator << "][" << f.kvSeparator << "] "
      << f.stringStorage << " " << f.intStorage << " " << f.alignment << "\n";
  auto& t = s.features;
  for (auto& x : t.dictionary) {
    o << "dicfeature " << x.index << " " << x.target << " " << x.shift << " " << x.name << " " << (int)x.kind << " " << ints(x.references);
    // the data to match are not needed after the dictionary was built
    if (!restored)
      for (auto& v : x.data) o << "[" << v << "]";
    o << "\n";
  }
  for (auto& x : t.primitive) {
    o << "primitive " << x.index << " " << x.name << " " << (int)x.kind << " " << ints(x.references);
    for (auto& v : x.matchData) o << "[" << v << "]";
    o << "\n";
  }
  for (auto& x : t.computation)
    o << "computation " << x.name << " " << x.index << " " << x.primitiveFeature << " | " << ints(x.trueBranch) << "| " << ints(x.falseBranch) << "\n";
  for (auto& x : t.pattern) o << "pattern " << x.index << " " << x.usage << " " << ints(x.references) << "\n";
  for (auto& x : t.ngram) o << "ngram " << x.index << " " << ints(x.references) << "\n";
  o << "numbers " << t.numPlaceholders << " " << t.totalPrimitives << " " << t.numDicFeatures << " " << t.numDicData << " " << t.numUniOnlyPats << "\n";
  for (auto& u : s.unkCreators) {
    o << "unk " << u.index << " " << u.name << " " << (int)u.type << " " << u.patternRow << " " << u.patternPtr << " " << u.priority << " " << (int)u.charClass << " | " << ints(u.replaceFields);
    for (auto& f : u.features) o << "| " << f.targetPlaceholder << " " << (int)f.featureType << " ";
    o << "\n";
  }
  o << "train " << s.training.surfaceIdx << "\n";
  for (auto& f : s.training.fields) o << "trainfield " << f.number << " " << f.fieldIdx << " " << f.dicIdx << " " << f.weight << "\n";
  for (auto& f : s.training.allowedUnk) o << "allow " << f.targetField << " " << f.sourceField << " [" << f.sourceKey << "]\n";
  return o;
}

string diffLine(const string& a, const string& b) {
  auto x = splitBy(a, "\n"), y = splitBy(b, "\n");
  for (size_t i = 0; i < x.size() || i < y.size(); ++i) {
    string l = i < x.size() ? x[i] : "(end)", m = i < y.size() ? y[i] : "(end)";
    if (l != m) return "< " + l + "\n> " + m + "\n";
  }
  return "";
}

Status parseText(Ctx& c, const string& text, const std::map<string, string>& files, AnalysisSpec* out) {
  auto dir = c.tmp("");
  for (auto& f : files) std::ofstream(dir + "/" + f.first, std::ios::binary) << f.second;
  string name = dir + "/model.spec";
  std::ofstream(name, std::ios::binary | std::ios::trunc) << text;
  return spec::parseFromFile(name, out);
}

// saving and restoring
void roundTrip(Ctx& c, const AnalysisSpec& s, const string& what) {
  util::CodedBuffer cb;
  spec::saveSpec(s, &cb);
  auto bytes = str(cb.contents());
  AnalysisSpec back;
  back.specMagic_ = back.specMagic2_ = 7;
  back.specVersion_ = 9999;
  if (!spec::loadSpec(bytes, &back)) {
    c.viol("spec:restore", what);
    return;
  }
  auto v = back.validate();
  if (!v) c.viol("spec:validate", Msg() << v << "\n" << what);
  auto a = dump(s, true), b = dump(back, true);
  if (a != b) c.viol("spec:restored-differs", diffLine(a, b) + what);
  util::CodedBuffer cb2;
  spec::saveSpec(back, &cb2);
  if (str(cb2.contents()) != bytes) c.viol("spec:saved-again-differs", what);
  if (spec::hashSpec(s) != spec::hashSpec(back)) c.viol("spec:hash-restored", what);
  c.stat("round_trips");
}

// the part that the compatibility hash is about
string hashed(const AnalysisSpec& s) {
  AnalysisSpec x = s;
  x.unkCreators.clear();
  x.training = spec::TrainingSpec{};
  x.training.surfaceIdx = 0;
  for (auto& d : x.features.dictionary) d.data.clear();
  return dump(x, true);
}

string checkDirect(const vs::Spec& s, const AnalysisSpec& c) {
  if (c.dictionary.fields.size() < s.fields.size()) return "number of fields";
  for (size_t i = 0; i < s.fields.size(); ++i) {
    auto& f = s.fields[i];
    auto& g = c.dictionary.fields[i];
    if (g.name != f.name || g.position != f.col || g.specIndex != (int)i) return "field " + f.name;
    if (g.isTrieKey != f.trie) return "trie index of " + f.name;
    if (f.trie && c.dictionary.indexColumn != (int)i) return "index column";
    auto ty = f.type == 'S' ? spec::FieldType::String : f.type == 'I' ? spec::FieldType::Int : f.type == 'L' ? spec::FieldType::StringList : spec::FieldType::StringKVList;
    if (g.fieldType != ty) return "type of " + f.name;
    if (f.hasEmpty && g.emptyString != f.empty) return "empty value of " + f.name;
    if (f.type == 'L' || f.type == 'K')
      if (g.listSeparator != f.lsep) return "list separator of " + f.name;
    if (f.type == 'K' && g.kvSeparator != f.kvsep) return "key separator of " + f.name;
    if (!f.storage.empty()) {
      for (auto& h : c.dictionary.fields)
        if (h.name == f.storage && h.stringStorage != g.stringStorage) return "storage of " + f.name;
    } else if (f.align && g.alignment != f.align) {
      // fields which share one storage have one alignment
      bool shared = false;
      for (auto& h : s.fields) shared |= h.storage == f.name;
      if (!shared) return "alignment of " + f.name;
    }
  }
  if (c.features.ngram.size() != s.ngrams.size()) return "number of n-grams";
  {
    std::multiset<size_t> a, b;
    for (auto& n : s.ngrams) a.insert(n.t.size());
    for (auto& n : c.features.ngram) b.insert(n.references.size());
    if (a != b) return "sizes of n-grams";
  }
  if (c.unkCreators.size() != s.unks.size()) return "number of unknown word rules";
  for (size_t i = 0; i < s.unks.size(); ++i) {
    auto& u = s.unks[i];
    auto& v = c.unkCreators[i];
    auto ty = u.type == 's' ? spec::UnkMakerType::Single : u.type == 'c' ? spec::UnkMakerType::Chunking : u.type == 'o' ? spec::UnkMakerType::Onomatopoeia : u.type == 'n' ? spec::UnkMakerType::Numeric : spec::UnkMakerType::Normalize;
    if (v.name != u.name || v.type != ty || v.patternRow != u.row) return "rule " + u.name;
    if (u.type != 'z' && (int)v.charClass != u.cls) return "character class of " + u.name;
    if (v.features.size() != (u.featTo.empty() ? 0 : 1)) return "features of " + u.name;
    if (v.replaceFields.size() != u.surfTo.size()) return "outputs of " + u.name;
    for (size_t k = 0; k < u.surfTo.size(); ++k)
      if (c.dictionary.forDicIdx(v.replaceFields[k]).name != u.surfTo[k]) return "outputs of " + u.name;
  }
  if (c.training.fields.size() != s.train.size()) return "number of training fields";
  for (size_t i = 0; i < s.train.size(); ++i) {
    auto& f = c.training.fields[i];
    if (c.dictionary.fields[f.fieldIdx].name != s.train[i].field || f.weight != s.train[i].weight16 / 16.0f) return "training field " + s.train[i].field;
  }
  if (c.training.allowedUnk.size() != s.gold.size()) return "gold rules";
  for (size_t i = 0; i < s.gold.size(); ++i) {
    auto& g = c.training.allowedUnk[i];
    if (c.dictionary.fields[g.targetField].name != s.gold[i].target || c.dictionary.fields[g.sourceField].name != s.gold[i].src || g.sourceKey != s.gold[i].key) return "gold rule";
  }
  return "";
}

vs::World randWorld(Rng& r) {
  vs::GenOpts o;
  o.lowPriority = false;
  vs::World w = vs::genWorld(r, o);
  fixWorld(w);
  return w;
}

void equalText(Ctx& c, bool withQuotes) {
  auto& r = c.rng;
  auto w = randWorld(r);
  AnalysisSpec code;
  auto s = buildSpecDsl(w.spec, &code);
  std::map<string, string> files;
  vs::quoteUsed() = false;
  auto text = vs::specText(w.spec, r, &files);
  bool quotes = vs::quoteUsed();
  if (quotes && !withQuotes) return;
  if (!s) {
    c.viol("spec:code-rejected", Msg() << s << "\n" << text);
    return;
  }
  string what = "\n--- spec\n" + text;
  for (auto& f : files) what += "\n--- " + f.first + "\n" + f.second;
  auto direct = checkDirect(w.spec, code);
  if (!direct.empty()) c.viol("spec:code-differs", direct + what);
  roundTrip(c, code, what);
  if (!w.spec.hasForward()) {
    AnalysisSpec t;
    s = parseText(c, text, files, &t);
    if (!s) {
      c.viol(quotes ? "spec:doubled-quotes" : "spec:text-rejected", Msg() << s << what);
      return;
    }
    auto a = dump(code, false), b = dump(t, false);
    if (a != b) c.viol(quotes ? "spec:doubled-quotes" : "spec:text-differs", diffLine(a, b) + what);
    if (!quotes) {
      if (spec::hashSpec(t) != spec::hashSpec(code)) c.viol("spec:hash-text", what);
      // another way to write the same
      std::map<string, string> files2;
      auto text2 = vs::specText(w.spec, r, &files2);
      AnalysisSpec t2;
      s = parseText(c, text2, files2, &t2);
      if (!s || dump(t2, false) != b) c.viol("spec:layout", Msg() << s << what + "\n--- other\n" + text2);
    }
    roundTrip(c, t, what);
    c.stat(quotes ? "texts_with_quotes" : "texts");
  }
  // a change of the dictionary or the features changes the hash
  auto w2 = w;
  switch (r.below(5)) {
    case 0: if (w2.spec.ngrams.size() > 1) w2.spec.ngrams.pop_back(); break;
    case 1: {
      auto& n = w2.spec.ngrams[r.below(w2.spec.ngrams.size())];
      auto& l = n.t[r.below(n.t.size())];
      if (l.size() > 1) l.pop_back();
      else l.push_back(l[0]);
      break;
    }
    case 2: for (auto& f : w2.spec.fields) f.align = (f.align + 1) % 4; break;
    case 3: for (auto& f : w2.spec.features) f.off += f.off > 0 ? 1 : -1; break;
    default: std::swap(w2.spec.ngrams.front(), w2.spec.ngrams.back());
  }
  AnalysisSpec other;
  if (buildSpecDsl(w2.spec, &other)) {
    bool same = hashed(code) == hashed(other);
    if (same != (spec::hashSpec(code) == spec::hashSpec(other)))
      c.viol(same ? "spec:hash-same" : "spec:hash-different", what);
    c.stat(same ? "hash_same" : "hash_changed");
  }
  c.distinct(text);
}

// ------------------------------------------------------------------ rejection

struct Bad {
  string kind, text;
};

// one thing in a correct specification is wrong
bool makeBad(Rng& r, vs::World w, string* kind, string* text, std::map<string, string>* files) {
  auto& s = w.spec;
  auto ft = [&](vs::FK k) -> vs::Feature& {
    s.features.emplace_back();
    auto& f = s.features.back();
    f.name = "bad_ft";
    f.kind = k;
    s.ngrams.emplace_back();
    s.ngrams.back().t = {{"bad_ft"}};
    return f;
  };
  auto anyOf = [&](const char* types) -> string {
    Strs v;
    for (auto& f : s.fields)
      if (strchr(types, f.type)) v.push_back(f.name);
    return v.empty() ? "" : r.pick(v);
  };
  auto line = [&](const string& l) {
    *text = vs::specText(s, r, files);
    *text += "\n" + l + "\n";
    return true;
  };
  string S = anyOf("S"), any = anyOf("SILK");
  switch (r.below(36)) {
    case 0: *kind = "undefined-storage"; return line("field 99 extra_f string storage nosuch");
    case 1: *kind = "undefined-num-bytes"; ft(vs::NumBytes).field = "nosuch"; break;
    case 2: *kind = "undefined-num-codepoints"; ft(vs::NumCps).field = "nosuch"; break;
    case 3: *kind = "undefined-match"; { auto& f = ft(vs::Match); f.mfields = {"nosuch"}; f.mrows = {{"a"}}; } break;
    case 4: *kind = "undefined-then"; { auto& f = ft(vs::Match); f.mfields = {S}; f.mrows = {{"a"}}; f.thenF = {"nosuch"}; f.elseF = {S}; } break;
    case 5: *kind = "undefined-else"; { auto& f = ft(vs::Match); f.mfields = {S}; f.mrows = {{"a"}}; f.thenF = {S}; f.elseF = {"nosuch"}; } break;
    case 6: *kind = "undefined-ngram"; s.ngrams[r.below(s.ngrams.size())].t[0].push_back("nosuch"); break;
    case 7: *kind = "undefined-feature-to"; return line("unk bad_u template row 1: single KANJI feature to nosuch");
    case 8: *kind = "undefined-surface-to"; return line("unk bad_u template row 1: single KANJI surface to [nosuch]");
    case 9: *kind = "undefined-train"; if (!s.train.empty()) { s.train.push_back({"nosuch", 16}); break; } return line("train loss nosuch 1.0");
    case 10: *kind = "undefined-gold-source"; if (s.train.empty()) return false; s.gold.push_back({s.train[0].field, "nosuch", "k"}); break;
    case 11: *kind = "undefined-gold-target"; if (s.train.empty() || anyOf("K").empty()) return false; s.gold.push_back({"nosuch", anyOf("K"), "k"}); break;
    case 12: *kind = "undefined-class"; return line("unk bad_u template row 1: single NOSUCHCLASS");
    case 13: *kind = "undefined-class-2"; return line("unk bad_u template row 1: chunking KANJI|NOSUCHCLASS|ALPH");
    case 14: *kind = "duplicate-field"; return line("field 99 " + any + " string");
    case 15: *kind = "duplicate-column"; return line(Msg() << "field " << s.fields[r.below(s.fields.size())].col << " extra_f string");
    case 16: *kind = "duplicate-feature"; ft(vs::Cp).off = 1; return line("feature bad_ft = codepoint 2");
    case 17: *kind = "duplicate-unk"; if (s.unks.empty()) return false; return line("unk " + s.unks[0].name + " template row 1: single KANJI");
    case 18: *kind = "feature-named-as-field"; return line("feature " + any + " = codepoint 2\nngram [" + any + "]");
    case 19: *kind = "two-tries"; return line("field 99 extra_f string trie_index");
    case 20: *kind = "no-trie"; for (auto& f : s.fields) f.trie = false; break;
    case 21: *kind = "trie-type"; for (auto& f : s.fields) if (f.trie) { f.type = "ILK"[r.below(3)]; f.storage.clear(); f.hasEmpty = false; } break;
    case 22: *kind = "storage-of-int"; if (anyOf("I").empty()) return false; return line("field 99 extra_f string storage " + anyOf("I"));
    case 23: *kind = "storage-for-int"; return line("field 99 extra_f int storage " + S);
    case 24: *kind = "empty-for-int"; return line("field 99 extra_f int empty \"a\"");
    case 25: *kind = "num-bytes-type"; if (anyOf("ILK").empty()) return false; ft(vs::NumBytes).field = anyOf("ILK"); break;
    case 26: *kind = "num-codepoints-type"; if (anyOf("ILK").empty()) return false; ft(vs::NumCps).field = anyOf("ILK"); break;
    case 27: *kind = "feature-to-type"; ft(vs::Cp).off = 1; return line("unk bad_u template row 1: single KANJI feature to bad_ft");
    case 28: *kind = "feature-to-field"; return line("unk bad_u template row 1: single KANJI feature to " + any);
    case 29: *kind = "gold-source-type"; if (s.train.empty()) return false; s.gold.push_back({s.train[0].field, S, "k"}); break;
    case 30: *kind = "zero-row"; return line("unk bad_u template row 0: single KANJI");
    case 31: *kind = "negative-row"; return line("unk bad_u template row -1: single KANJI");
    case 32: *kind = "zero-column"; return line("field 0 extra_f string");
    case 33: *kind = "storage-and-align"; return line("field 99 extra_f string align 2 storage " + S);
    case 34: *kind = "huge-align"; return line(Msg() << "field 99 extra_f string align " << r.range(31, 99999));
    default: *kind = "weight-range"; if (!s.train.empty()) return false; return line("train loss " + s.trieField().name + " " + string(400, '9') + ".0");
  }
  *text = vs::specText(s, r, files);
  return true;
}

void badCase(Ctx& c) {
  auto& r = c.rng;
  auto w = randWorld(r);
  if (w.spec.hasForward()) return;
  for (int i = 0; i < 12; ++i) {
    string kind, text;
    std::map<string, string> files;
    vs::quoteUsed() = false;
    if (!makeBad(r, w, &kind, &text, &files)) continue;
    if (vs::quoteUsed()) continue;
    AnalysisSpec t;
    try {
      auto s = parseText(c, text, files, &t);
      if (s && kind == "huge-align") {
        dic::DictionaryBuilder b;
        s = b.importSpec(&t);
        string csv;
        for (int k = 0; k < 99; ++k) csv += "1,";
        if (s) s = b.importCsv("dic", csv + "1\n");
      }
      if (s) c.viol("accepts:" + kind, text);
      else if (msg(s).size() < 10) c.viol("no-message:" + kind, text);
      c.stat(s ? "accepted" : "rejected");
    } catch (std::exception& e) {
      c.viol("exception:" + kind, Msg() << e.what() << "\n" << text);
    }
    c.distinct(text);
  }
}

// ------------------------------------------------------------------ fuzzing

string mutate(Rng& r, string t, const vs::World& w) {
  static const char* const bits[] = {
      "field", "feature", "unk", "ngram", "train", "match", "with", "then", "else", "[", "]", ",", "|", ":", "=", "\"", "\"\"", "#", "\n", " ", "\t", "0", "-", "-1", "99999", "100000", "1.5",
      "KANJI", "template row", "surface to", "feature to", "unk_gold_if", "loss", "codepoint", "codepoint_type", "placeholder", "num_bytes", "num_codepoints", "file \"model.spec\"", "file \"/nonexistent\"", "file \"\"", "string", "int", "string_list", "kv_list", "trie_index", "empty", "storage", "align", "list_sep", "kv_sep", "normalize", "numeric", "chunking", "onomatopeia", "あ", "\xff", "\xe3"};
  int n = 1 + (int)r.below(r.chance(30) ? 10 : 2);
  for (int i = 0; i < n && !t.empty(); ++i) {
    size_t p = r.below(t.size());
    switch (r.below(9)) {
      case 0: t[p] = (char)r.below(256); break;
      case 1: t.erase(p, 1 + r.below(8)); break;
      case 2: t.insert(p, r.pick(bits)); break;
      case 3: t = t.substr(0, p); break;
      case 4: {  // move text
        auto x = t.substr(p, 1 + r.below(60));
        t.insert(r.below(t.size()), x);
        break;
      }
      case 5: {  // a word becomes another one
        auto e = t.find_first_of(" \n,]", p);
        if (e != string::npos) {
          auto b = t.find_last_of(" \n,[", p);
          b = b == string::npos ? 0 : b + 1;
          if (b <= e) t.replace(b, e - b, r.chance(50) ? string(r.pick(bits)) : r.pick(w.spec.fields).name);
        }
        break;
      }
      case 6: {  // a line is lost
        auto e = t.find('\n', p);
        if (e != string::npos) {
          auto b = t.rfind('\n', p);
          b = b == string::npos ? 0 : b;
          if (b < e) t.erase(b, e - b);
        }
        break;
      }
      case 7: {  // a line twice
        auto e = t.find('\n', p);
        auto b = t.rfind('\n', p);
        if (e != string::npos && b != string::npos && b < e) t.insert(e, t.substr(b, e - b));
        break;
      }
      default: {  // digits
        auto d = t.find_first_of("0123456789", p);
        if (d != string::npos) t.replace(d, 1, r.chance(50) ? std::to_string(r.below(100000)) : "0");
      }
    }
  }
  return t;
}

// a quoted string with a doubled quote
bool hasDoubledQuote(const string& t) {
  for (size_t p = t.find("\"\""); p != string::npos; p = t.find("\"\"", p + 1))
    if ((p && !strchr(" \t\r\n", t[p - 1])) || (p + 2 < t.size() && !strchr(" \t\r\n,[", t[p + 2]))) return true;
  return false;
}

void fuzzText(Ctx& c, bool quotes) {
  auto& r = c.rng;
  auto w = randWorld(r);
  std::map<string, string> files;
  auto base = vs::specText(w.spec, r, &files);
  for (int i = 0; i < 25; ++i) {
    string text;
    if (r.chance(90)) {
      text = mutate(r, base, w);
    } else {
      size_t n = r.below(200);
      for (size_t k = 0; k < n; ++k) text.push_back((char)(r.chance(50) ? r.below(256) : 32 + r.below(95)));
    }
    if (!quotes && hasDoubledQuote(text)) continue;
    AnalysisSpec t;
    Status s = Status::Ok();
    try {
      s = parseText(c, text, files, &t);
    } catch (std::exception& e) {
      c.viol(string("exception:") + e.what(), text);
      continue;
    }
    if (s) roundTrip(c, t, "\n--- spec\n" + text);
    else if (msg(s).size() < 10) c.viol("no-message", text);
    c.stat(s ? "accepted" : "rejected");
    if (s) {
      // the builder does not crash either
      dic::DictionaryBuilder b;
      auto x = b.importSpec(&t);
      c.stat(x ? "importable" : "not_importable");
    }
    c.distinct(text);
  }
}

void equalCase(Ctx& c) { equalText(c, true); }

void equalPlainCase(Ctx& c) { equalText(c, false); }

void fuzzCase(Ctx& c) { fuzzText(c, true); }

void fuzzPlainCase(Ctx& c) { fuzzText(c, false); }

// long repetitions of one part of the language, parsed in another process
void deepCase(Ctx& c) {
  auto& r = c.rng;
  const char* kinds[] = {"classes", "ngram-parts", "train", "comments", "spaces", "unk-features", "lists", "quoted", "name", "fields", "matches"};
  int k = (int)(c.idx % 11);
  size_t n = (size_t)(r.chance(50) ? r.range(3000, r.chance(20) ? 120000 : 20000) : r.range(200, 3000));
  string head = "field 1 a string trie_index\nfield 2 b string\n";
  string t = head;
  auto rep = [&](const char* x, const char* sep) {
    for (size_t i = 0; i < n; ++i) t += i ? string(sep) + x : string(x);
  };
  bool valid = true;
  switch (k) {
    case 0: n /= 2; t += "ngram [a]\nunk u template row 1: single "; rep("KANJI", "|"); t += " surface to [a]\n"; break;
    case 1: t += "ngram "; t += "["; rep("b", ", "); t += "]\n"; break;
    case 2: t += "ngram [a]\ntrain "; rep("a 1", ", "); t += "\n"; valid = false; break;
    case 3: rep("# remark\n", ""); t += "ngram [a]\n"; break;
    case 4: t += "ngram"; rep(" ", "\n"); t += " [a]\n"; break;
    case 5: t += "ngram [a]\nunk u template row 1: single KANJI feature to "; rep("[x]", ", "); t += "\n"; valid = false; break;
    case 6: t += "feature f = match ["; rep("a", ","); t += "] with \"a\"\nngram [f]\n"; valid = false; break;
    case 7: t += "field 3 c string empty \""; rep("い", ""); t += "\"\nngram [a]\n"; break;
    case 8: t += "field 3 "; rep("c", ""); t += " string\nngram [a]\n"; break;
    case 9:
      for (size_t i = 0; i < std::min<size_t>(n, 3000); ++i) t += Msg() << "field " << i + 3 << " x" << i << " string\n";
      t += "ngram [a]\n";
      break;
    default: t += "feature f = match a with \""; rep("あ\n", ""); t += "\"\nngram [f]\n";
  }
  // mistakes at the end are found too
  if (r.chance(30)) {
    t += "ngram [";
    valid = false;
  }
  (void)valid;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    // the usual end of a process, also for a stack overflow
    close(2);
    AnalysisSpec out;
    int code = 3;
    try {
      auto s = parseText(c, t, {}, &out);
      code = s ? 0 : 1;
    } catch (std::exception&) {
    }
    _exit(code);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  if (code != 0 && code != 1) c.viol(string("deep:") + kinds[k] + (n > 5000 ? ":long" : ""), Msg() << n << " parts, status " << st);
  c.stat(code == 0 ? "accepted" : "rejected");
  c.stat("parts", n);
  c.distinct(Msg() << k << " " << n << t.size());
}

}  // namespace

int main(int argc, const char** argv) {
  return vh::run(argc, argv, {{"equal", equalCase}, {"bad", badCase}, {"fuzz", fuzzCase}, {"equalplain", equalPlainCase}, {"fuzzplain", fuzzPlainCase}, {"deep", deepCase}});
}
