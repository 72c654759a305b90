// Independent text helpers: UTF-8, random characters, CSV.
#ifndef VERIF_VTEXT_H
#define VERIF_VTEXT_H
#include <string>
#include <vector>
#include "vh.h"

namespace vt {

inline std::string enc(uint32_t c) {
  std::string s;
  if (c < 0x80) {
    s += (char)c;
  } else if (c < 0x800) {
    s += (char)(0xC0 | (c >> 6));
    s += (char)(0x80 | (c & 63));
  } else if (c < 0x10000) {
    s += (char)(0xE0 | (c >> 12));
    s += (char)(0x80 | ((c >> 6) & 63));
    s += (char)(0x80 | (c & 63));
  } else {
    s += (char)(0xF0 | (c >> 18));
    s += (char)(0x80 | ((c >> 12) & 63));
    s += (char)(0x80 | ((c >> 6) & 63));
    s += (char)(0x80 | (c & 63));
  }
  return s;
}

struct Dec {
  uint32_t cp;
  int len;
};

// RFC 3629
inline Dec decodeOne(const std::string& s, size_t i) {
  auto b = [&](size_t k) -> int {
    return i + k < s.size() ? (unsigned char)s[i + k] : -1;
  };
  auto cont = [&](size_t k) { return b(k) >= 0x80 && b(k) <= 0xBF; };
  int b0 = b(0);
  if (b0 < 0) return {0, 0};
  if (b0 < 0x80) return {(uint32_t)b0, 1};
  if (b0 >= 0xC2 && b0 <= 0xDF && cont(1))
    return {(uint32_t)((b0 & 31) << 6 | (b(1) & 63)), 2};
  if (b0 >= 0xE0 && b0 <= 0xEF && cont(1) && cont(2)) {
    uint32_t u = (b0 & 15) << 12 | (b(1) & 63) << 6 | (b(2) & 63);
    if (u < 0x800 || (u >= 0xD800 && u <= 0xDFFF)) return {0, 0};
    return {u, 3};
  }
  if (b0 >= 0xF0 && b0 <= 0xF4 && cont(1) && cont(2) && cont(3)) {
    uint32_t u = (b0 & 7) << 18 | (b(1) & 63) << 12 | (b(2) & 63) << 6 |
                 (b(3) & 63);
    if (u < 0x10000 || u > 0x10FFFF) return {0, 0};
    return {u, 4};
  }
  return {0, 0};
}

struct Decoded {
  bool valid = true;
  std::vector<uint32_t> cps;
  std::vector<size_t> off;  // size cps+1
};

inline Decoded decode(const std::string& s) {
  Decoded d;
  size_t i = 0;
  while (i < s.size()) {
    auto x = decodeOne(s, i);
    if (x.len == 0) {
      d.valid = false;
      return d;
    }
    d.cps.push_back(x.cp);
    d.off.push_back(i);
    i += x.len;
  }
  d.off.push_back(i);
  return d;
}

// one random character, mostly from the classes that matter
inline std::string randomChar(vh::Rng& r) {
  static const char* const samples[] = {
      "a", "Z", "é", "я", "Ω", "0", "9", "５", "１", "一", "二", "十", "百",
      "千", "万", "億", "兆", "数", "何", "幾", "零", "〇", "○", "．", "・",
      "·", "，", ",", "/", "／", ":", "：", " ", "　", "、", "。", "々", "漢",
      "字", "桜", "あ", "い", "か", "ん", "っ", "ぁ", "ゃ", "ア", "カ", "ン",
      "ッ", "ァ", "ー", "〜", "～", "ｱ", "ｰ", "ﾟ", "「", "」", "(", ")", "[",
      "]", "!", "？", "★", "㍻", "①", "ゝ", "ヽ", "ヶ", "が", "ざ", "だ",
      "😀", "𠮷", "ぱ", "ば", "う", "え", "お", "ゅ", "\xc2\xa0", "\x7f"};
  int k = (int)r.below(100);
  if (k < 80) return samples[r.below(sizeof(samples) / sizeof(samples[0]))];
  if (k < 88) return enc(0x3040 + (uint32_t)r.below(0xC0));
  if (k < 92) return enc(0x4E00 + (uint32_t)r.below(0x5200));
  if (k < 95) return enc((uint32_t)r.below(0x80));
  if (k < 97) return enc(0xFF00 + (uint32_t)r.below(0xF0));
  for (;;) {
    uint32_t c = (uint32_t)r.below(r.chance(50) ? 0x110000 : 0x3000);
    if (c >= 0xD800 && c <= 0xDFFF) continue;
    return enc(c);
  }
}

struct Csv {
  std::vector<std::vector<std::string>> rows;
  bool ok = true;
};

// RFC 4180 with LF line ends; stops at the first malformed row
inline Csv parseCsv(const std::string& t, char sep, char quote) {
  Csv res;
  size_t i = 0;
  while (i < t.size()) {
    std::vector<std::string> row;
    bool endRow = false;
    while (!endRow) {
      std::string f;
      if (i < t.size() && t[i] == quote) {
        ++i;
        bool closed = false;
        while (i < t.size()) {
          if (t[i] == quote) {
            if (i + 1 < t.size() && t[i + 1] == quote) {
              f += quote;
              i += 2;
              continue;
            }
            ++i;
            closed = true;
            break;
          }
          f += t[i++];
        }
        if (!closed || (i < t.size() && t[i] != sep && t[i] != '\n')) {
          res.ok = false;
          return res;
        }
      } else {
        while (i < t.size() && t[i] != sep && t[i] != '\n') {
          if (t[i] == quote) {
            res.ok = false;
            return res;
          }
          f += t[i++];
        }
      }
      row.push_back(f);
      if (i >= t.size()) {
        endRow = true;
      } else if (t[i] == '\n') {
        ++i;
        endRow = true;
      } else {
        ++i;
      }
    }
    res.rows.push_back(row);
  }
  return res;
}

}  // namespace vt
#endif
