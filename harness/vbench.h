// The analyzer program with a random model, shared by several harnesses.
#ifndef VERIF_VBENCH_H
#define VERIF_VBENCH_H

#include <algorithm>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#endif
#endif

#include "vjum.h"

namespace vj {

using jumandic::OutputType;
using vh::Ctx;

inline const std::vector<OutputType>& allTypes() {
  static const std::vector<OutputType> t = {
      OutputType::Juman,   OutputType::Morph,   OutputType::FullMorph, OutputType::Segmentation,
      OutputType::Lattice, OutputType::JumanPb, OutputType::LatticePb, OutputType::DicSubset,
#ifdef JPP_ENABLE_DEV_TOOLS
      OutputType::GlobalBeamPos,
#endif
      OutputType::FullLatticeDump};
  return t;
}

struct Bench {
  Ctx& c;
  World w;
  std::string model;
  std::unique_ptr<Exec> ex;
  Fields f;
  std::string where;

  explicit Bench(Ctx& c, int maxRows = 160) : c(c) {
    w = makeWorld(c.rng, maxRows);
    model = c.tmp("m.jppmdl");
  }

  bool build() {
    auto s = buildModel(w, model);
    if (!s) {
      c.viol("model-build", msg(s) + "\n" + w.csv);
      return false;
    }
    return true;
  }

  std::unique_ptr<Exec> make(const jumandic::JumanppConf& conf, bool interpreted = false) {
    std::unique_ptr<Exec> e(new Exec(conf));
    e->interpreted = interpreted;
    auto s = e->init();
    if (!s) {
      c.viol("model-load", msg(s) + " " + confText(conf));
      return nullptr;
    }
    return e;
  }

  bool open(const jumandic::JumanppConf& conf) {
    where = confText(conf);
    ex = make(conf);
    if (!ex) return false;
    auto s = f.init(ex->analyzerPtr()->output());
    if (!s) {
      c.viol("fields", msg(s));
      return false;
    }
    return true;
  }
};

// bytes of a sentence nobody should write
inline std::string hostileText(Rng& r, const World& w) {
  std::string s;
  int k = (int)r.below(100);
  auto word = [&] { return w.rows[8 + r.below(w.rows.size() - 8)][SURF]; };
  if (k < 8) {
    int n = (int)r.skewed(60);
    for (int i = 0; i < n; ++i) s += (char)r.below(256);
    return s;
  }
  if (k < 40) {
    // an ordinary one with damage
    s = randSentence(r, w, 8);
    int n = (int)r.below(4);
    for (int i = 0; i < n && !s.empty(); ++i) {
      size_t at = r.below(s.size());
      switch (r.below(6)) {
        case 0: s[at] = (char)r.below(256); break;
        case 1: s.erase(at, 1 + r.below(4)); break;
        case 2: s.insert(at, 1, (char)r.below(256)); break;
        case 3: s.resize(at); break;
        case 4: s.insert(at, r.pick((const std::string[]){std::string(1, '\0'), "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xef\xbb\xbf", "\xe2\x80\x8b", "\t", "\r", "\x7f", "\n", "\xef\xbf\xbf", "\xf0\x9f\x98\x80"})); break;
        default: s += s.substr(at); break;
      }
    }
    return s;
  }
  if (k < 65) {
    // patterns which end in the middle
    if (r.chance(60)) s = word();
    static const char* const tails[] = {
        "１", "12", "1,", "1,0", "1,00", "1,000", "1,0000", "3.", "3.1", ".", "．５", "2/", "2／3", "何", "数", "数十", "十数", "何千何", "分の", "二分の", "二分の一", "５つ", "ーー", "〜", "ー",
        "っ", "ッッ", "ああああ", "ころころ", "コロコロ", "カタカタカ", "ぱたぱた", "きゃっきゃっ", "っっっ", "ぁ", "ぁぁ", "ぇー", "すっごーい", "きたああああ", "んんん", "ーっ", "（", "）", "％", "%", "℃",
        "１００万", "10億円", "約", "第", "第三", "ｋ", "ｋｍ", "キロ", "3キロ", "5割", "2、3", "二、三", "２，０００", "…", "・・・", "゛", "゜", "ヽ", "ゞ", "々", "々々", "人々々"};
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) s += r.pick(tails);
    if (r.chance(20)) s += word();
    return s;
  }
  if (k < 92) {
    // long repeats, around the limit of the size
    std::string unit;
    switch (r.below(7)) {
      case 0: unit = word(); break;
      case 1: unit = vt::randomChar(r); break;
      case 2: unit = r.pick((const char* const[]){"ー", "っ", "1", "１", "あ", "ア", "a", " ", "一", "〜", "。", "1,", "ころ", "っー"}); break;
      case 3: unit = vt::randomChar(r) + vt::randomChar(r); break;
      case 4: unit = word() + r.pick((const char* const[]){"ー", "っ", "ぁ", "1", "の", ""}); break;
      case 5: unit = std::string(1, (char)r.below(256)); break;
      default: unit = word() + word();
    }
    if (unit.empty()) unit = "x";
    size_t want = r.chance(88) ? r.below(400) : (r.chance(50) ? 4096 - r.below(8) : r.below(4500));
    if (r.chance(3)) want = 65530 + r.below(12);
    if (r.chance(2)) want = 100000 + r.below(100000);
    // memory grows with the third power of the length of a run (see
    // memoryCase), runs of letters are split
    size_t run = 0;
    while (s.size() + unit.size() <= want) {
      s += unit;
      run += unit.size();
      if (run > 300 && want <= 4096 && s.size() + 3 <= want) {
        s += "。";
        run = 0;
      }
    }
    if (r.chance(30)) s.append(want - s.size(), '1');
    if (r.chance(15) && !s.empty()) s[s.size() - 1 - r.below(std::min<size_t>(s.size(), 4))] ^= (char)(1 + r.below(255));
    return s;
  }
  if (k < 95) return "";
  return randSentence(r, w, 60);
}

struct ExactBuffer {
  char* p;
  size_t n;
  explicit ExactBuffer(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) {
    memcpy(p, s.data(), n);
#ifdef VERIF_ASAN
    // nothing after the end belongs to the sentence
    if (n == 0) __asan_poison_memory_region(p, 1);
#endif
  }
  ~ExactBuffer() {
#ifdef VERIF_ASAN
    if (n == 0) __asan_unpoison_memory_region(p, 1);
#endif
    free(p);
  }
  StringPiece piece() const { return StringPiece{p, n}; }
};

inline std::string firstOutput(Exec& e, const std::string& text) {
  ExactBuffer b(text);
  auto s = e.analyze(b.piece(), "");
  if (!s) return "ERR " + msg(s);
  return str(e.output());
}

}  // namespace vj
#endif
