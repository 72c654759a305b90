// C12 UTF-8 and character classes, C20 encodings, C21 containers, C22 CSV.
#include <algorithm>
#include <cmath>
#include <deque>
#include <memory>
#include <unordered_map>

#include "util/array_slice.h"
#include "util/array_slice_util.h"
#include "util/char_buffer.h"
#include "util/characters.h"
#include "util/coded_io.h"
#include "util/csv_reader.h"
#include "util/fast_printer.h"
#include "util/flatmap.h"
#include "util/flatset.h"
#include "util/inlined_vector.h"
#include "util/lru_cache.h"
#include "util/memory.hpp"
#include "util/mmap.h"
#include "util/parse_utils.h"
#include "util/printer.h"
#include "util/serialization.h"
#include "util/serialization_flatmap.h"
#include "util/sliceable_array.h"
#include "util/stl_util.h"
#include "util/string_piece.h"
#include "vh.h"
#include "vtext.h"

using namespace jumanpp;
using namespace jumanpp::util;
using vh::Ctx;
using vh::Msg;
using std::string;

// heap copy of exactly the given size: overreads hit a red zone
struct Exact {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const string& s) : p(new char[s.size()]), n(s.size()) {
    memcpy(p.get(), s.data(), n);
  }
  StringPiece sp() const { return StringPiece{p.get(), p.get() + n}; }
};

// ---------------------------------------------------------------- C12

static u32 refClass(char32_t c) {
  using CC = chars::CharacterClass;
  auto v = [](CC x) { return (u32)x; };
  auto in = [&](std::initializer_list<char32_t> l) {
    for (auto x : l)
      if (x == c) return true;
    return false;
  };
  auto rng = [&](char32_t a, char32_t b) { return a <= c && c <= b; };
  if (in({0x20, 0x3000, 0xA0, 0x1680, 0x180E, 0x202F, 0x205F, 0xFEFF}) ||
      rng(0x2000, 0x200B))
    return v(CC::SPACE);
  if (in({0x3001, 0x3002})) return v(CC::IDEOGRAPHIC_PUNC);
  if (rng(0x337B, 0x337E)) return v(CC::SYMBOL) | v(CC::ERA);
  static const char32_t smallHira[] = {0x3041, 0x3043, 0x3045, 0x3047, 0x3049,
                                       0x3063, 0x3083, 0x3085, 0x3087, 0x308E,
                                       0x3095, 0x3096};
  static const char32_t smallKata[] = {0x30A1, 0x30A3, 0x30A5, 0x30A7, 0x30A9,
                                       0x30C3, 0x30E3, 0x30E5, 0x30E7, 0x30EE,
                                       0x30F5, 0x30F6};
  if (rng(0x3040, 0x309F)) {
    u32 r = v(CC::HIRAGANA);
    for (auto x : smallHira)
      if (x == c) r |= v(CC::SMALL_KANA);
    return r;
  }
  if (rng(0x30A0, 0x30FA) || rng(0x30FD, 0x30FF)) {
    u32 r = v(CC::KATAKANA);
    for (auto x : smallKata)
      if (x == c) r |= v(CC::SMALL_KANA);
    return r;
  }
  if (in({0x30FC, 0x301C, 0xFF5E, 0x223C}))
    return v(CC::HIRAGANA) | v(CC::KATAKANA) | v(CC::CHOON);
  if (c == 0xFF70) return v(CC::HANKAKU_KANA) | v(CC::CHOON);
  if (rng(0xFF66, 0xFF9F)) return v(CC::HANKAKU_KANA);
  if (in({0xB7, 0x30FB})) return v(CC::MIDDLE_DOT);
  if (in({0x2C, 0xFF0C})) return v(CC::COMMA);
  if (in({0x2F, 0xFF0F})) return v(CC::SLASH);
  if (in({0x3A, 0xFF1A})) return v(CC::COLON);
  if (c == 0xFF0E) return v(CC::PERIOD);
  if (rng('0', '9') || rng(0xFF10, 0xFF19)) return v(CC::FIGURE);
  // kanji digits, zero in three forms
  for (auto x : U"\u25cb\u3007零一二三四五六七八九")
    if (x != 0 && x == c) return v(CC::KANJI_FIGURE) | v(CC::KANJI);
  for (auto x : U"十百千万億兆")
    if (x != 0 && x == c) return v(CC::KANJI_FIGURE) | v(CC::FIGURE_DIGIT);
  for (auto x : U"数何幾")
    if (x != 0 && x == c) return v(CC::FIGURE_EXCEPTION) | v(CC::KANJI);
  // pairs of brackets of the Unicode standard listed in the documentation
  static const char32_t br[][2] = {
      {0x28, 0x29},     {0x5B, 0x5B},     {0x5D, 0x5D},     {0x7B, 0x7B},
      {0x7D, 0x7D},     {0x0F3A, 0x0F3D}, {0x169B, 0x169C}, {0x2045, 0x2046},
      {0x207D, 0x207E}, {0x208D, 0x208E}, {0x2308, 0x230B}, {0x2329, 0x232A},
      {0x2768, 0x2775}, {0x27C5, 0x27C6}, {0x27E6, 0x27EF}, {0x2983, 0x2998},
      {0x29D8, 0x29DB}, {0x29FC, 0x29FD}, {0x2E22, 0x2E29}, {0x3008, 0x3011},
      {0x3014, 0x301B}, {0xFE59, 0xFE5E}, {0xFF08, 0xFF09}, {0xFF3B, 0xFF3B},
      {0xFF3D, 0xFF3D}, {0xFF5B, 0xFF5B}, {0xFF5D, 0xFF5D}, {0xFF5F, 0xFF60},
      {0xFF62, 0xFF63}};
  for (auto& p : br)
    if (rng(p[0], p[1])) return v(CC::BRACKET);
  // '@', '`' and their wide forms, the inverted question mark count as
  // alphabetic in this analyzer
  if (rng('@', 'Z') || rng('`', 'z') || rng(0xBF, 0x100) ||
      rng(0xFF20, 0xFF3A) || rng(0xFF40, 0xFF5A) || rng(0x370, 0x4FF))
    return v(CC::ALPH);
  if (rng(0x4E00, 0x9FFF) || c == 0x3005) return v(CC::KANJI);
  return v(CC::SYMBOL);
}

static void checkClass(Ctx& c, char32_t cp, const char* how) {
  u32 got = (u32)chars::getCodeType(cp);
  u32 want = refClass(cp);
  if (got != want) {
    char key[64];
    snprintf(key, sizeof key, "charclass:U+%04X=%x", (unsigned)cp, got);
    c.viol(key, Msg() << "class of code point is " << std::hex << got
                      << " instead of " << want << " " << how);
  }
}

static void utf8_all(Ctx& c) {
  // 0x1100 cases of 0x100 code points each cover everything; case order is
  // permuted so that first uses of lazily built tables differ
  u32 block = (u32)((c.idx * 2749 + c.seed * 17) % 0x1100);
  for (u32 cp = block * 0x100; cp < (block + 1) * 0x100; ++cp) {
    checkClass(c, cp, "");
    bool surrogate = cp >= 0xD800 && cp <= 0xDFFF;
    string s = vt::enc(cp);
    Exact e(s);
    auto r = chars::getCodepoint(e.sp().ubegin(), e.sp().uend());
    if (surrogate) {
      if (r.utf8Length != 0)
        c.viol("utf8:accepts-surrogate", vh::hex(s));
      continue;
    }
    if (r.utf8Length != (int)s.size() || r.codepoint != cp)
      c.viol("utf8:decode", Msg() << vh::hex(s) << " -> " << (u32)r.codepoint
                                  << "/" << r.utf8Length);
    if (chars::numCodepoints(e.sp()) != 1)
      c.viol("utf8:count-single", vh::hex(s));
    // all prefixes are invalid
    for (size_t k = 1; k < s.size(); ++k) {
      Exact t(s.substr(0, k));
      auto q = chars::getCodepoint(t.sp().ubegin(), t.sp().uend());
      if (q.utf8Length != 0) c.viol("utf8:accepts-truncated", vh::hex(s));
    }
    chars::InputCodepoint ic{e.sp()};
    if (ic.codepoint != cp || (u32)ic.charClass != refClass(cp)) {
      if ((u32)chars::getCodeType(cp) == refClass(cp))
        c.viol("utf8:input-codepoint", vh::hex(s));
    }
    for (int b = 0; b < 21; ++b) {
      auto q = static_cast<chars::CharacterClass>(1 << b);
      if (ic.hasClass(q) != ((((u32)ic.charClass) >> b) & 1))
        c.viol("utf8:hasClass", vh::hex(s));
    }
  }
  c.stat("codepoints", 0x100);
  c.distinct(Msg() << block);
}

static void checkSeq(Ctx& c, const string& s) {
  auto ref = vt::decodeOne(s, 0);
  Exact e(s);
  auto r = chars::getCodepoint(e.sp().ubegin(), e.sp().uend());
  if (ref.len == 0) {
    if (r.utf8Length != 0)
      c.viol("utf8:accepts-invalid", Msg() << vh::hex(s) << " as "
                                           << (u32)r.codepoint);
  } else if (r.utf8Length != ref.len || r.codepoint != ref.cp) {
    c.viol("utf8:decode", Msg() << vh::hex(s) << " -> " << (u32)r.codepoint
                                << "/" << r.utf8Length);
  }
}

static void utf8_bytes(Ctx& c) {
  // every sequence of one and two bytes once (case = first byte), every
  // three byte sequence over interesting bytes, random four byte ones
  string first(1, (char)(c.idx & 0xff));
  checkSeq(c, first);
  static const u8 edge[] = {0x00, 0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90,
                            0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0,
                            0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7,
                            0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff};
  for (int i = 0; i < 256; ++i) checkSeq(c, first + string(1, (char)i));
  for (u8 a : edge)
    for (u8 b : edge) {
      string s = first + string(1, (char)a) + string(1, (char)b);
      checkSeq(c, s);
      for (u8 d : edge) checkSeq(c, s + string(1, (char)d));
    }
  c.stat("sequences", 257 + 30 * 30 * 31);
  c.distinct(first);
}

static void utf8_str(Ctx& c) {
  auto& r = c.rng;
  string s;
  int n = (int)r.skewed(60);
  for (int i = 0; i < n; ++i) s += vt::randomChar(r);
  bool mutate = r.chance(50);
  if (mutate && !s.empty()) {
    int k = 1 + (int)r.below(2);
    for (int i = 0; i < k && !s.empty(); ++i) {
      switch (r.below(4)) {
        case 0: s[r.below(s.size())] = (char)r.below(256); break;
        case 1: s.erase(r.below(s.size()), 1); break;
        case 2: s.insert(r.below(s.size() + 1), 1, (char)(0x80 + r.below(128)));
          break;
        case 3: s.resize(r.below(s.size() + 1)); break;
      }
    }
  }
  auto ref = vt::decode(s);
  Exact e(s);
  std::vector<chars::InputCodepoint> res;
  auto st = chars::preprocessRawData(e.sp(), &res);
  if ((bool)st != ref.valid) {
    c.viol(ref.valid ? "utf8:rejects-valid" : "utf8:accepts-invalid",
           vh::hex(s));
    return;
  }
  int cnt = chars::numCodepoints(e.sp());
  if (ref.valid) {
    c.stat("valid");
    if (cnt != (int)ref.cps.size())
      c.viol("utf8:count", Msg() << vh::hex(s) << " " << cnt);
    if (res.size() != ref.cps.size()) {
      c.viol("utf8:length", vh::hex(s));
      return;
    }
    for (size_t i = 0; i < res.size(); ++i) {
      auto& x = res[i];
      if (x.codepoint != ref.cps[i] ||
          x.bytes.begin() != e.sp().begin() + ref.off[i] ||
          x.bytes.end() != e.sp().begin() + ref.off[i + 1])
        c.viol("utf8:codepoint", vh::hex(s));
      if (x.charClass != chars::getCodeType(ref.cps[i]))
        c.viol("utf8:class-in-text", vh::hex(s));
    }
  } else {
    c.stat("invalid");
    if (mutate && st.message().empty()) c.viol("utf8:no-message", vh::hex(s));
  }
  c.distinct(s);
  c.sample(vh::hex(s));
}

// ---------------------------------------------------------------- C20

static u64 randInt(vh::Rng& r) {
  switch (r.below(6)) {
    case 0: return r.below(256);
    case 1: return r.next() >> r.below(64);
    case 2: {
      u64 v = 1ull << r.below(64);
      return v + r.below(3) - 1;
    }
    case 3: {
      int k = 7 * (int)(1 + r.below(9));
      u64 v = k >= 64 ? ~0ull : (1ull << k);
      return v + r.below(3) - 1;
    }
    case 4: return 0 - r.below(300);
    default: return r.next();
  }
}

static string randBytes(vh::Rng& r, int max) {
  string s;
  int n = (int)r.skewed(max);
  for (int i = 0; i < n; ++i) s += (char)(r.chance(20) ? 0 : r.below(256));
  return s;
}

struct In {
  i32 a;
  string b;
  std::vector<i32> v;
  float f;
  bool operator==(const In& o) const {
    return a == o.a && b == o.b && v == o.v && memcmp(&f, &o.f, 4) == 0;
  }
};
enum class En { A = 0, B = 7, C = -3 };
struct Rec {
  u32 x;
  u64 y;
  i64 z;
  bool t;
  En e;
  std::vector<string> ss;
  std::vector<In> ins;
  string last;
  i32 tail;
  bool operator==(const Rec& o) const {
    return x == o.x && y == o.y && z == o.z && t == o.t && e == o.e &&
           ss == o.ss && ins == o.ins && last == o.last && tail == o.tail;
  }
};
namespace jumanpp {
namespace util {
namespace serialization {
SERIALIZE_ENUM_CLASS(En, i32);
template <typename A>
void Serialize(A& a, In& o) {
  a& o.a;
  a& o.b;
  a& o.v;
  a& o.f;
}
template <typename A>
void Serialize(A& a, Rec& o) {
  a& o.x;
  a& o.y;
  a& o.z;
  a& o.t;
  a& o.e;
  a& o.ss;
  a& o.ins;
  a& o.last;
  a& o.tail;
}
}  // namespace serialization
}  // namespace util
}  // namespace jumanpp

static string leb(u64 v) {
  string s;
  do {
    u8 b = v & 0x7f;
    v >>= 7;
    if (v) b |= 0x80;
    s += (char)b;
  } while (v);
  return s;
}

static void coded(Ctx& c) {
  auto& r = c.rng;
  struct Item {
    int kind;
    u64 v;
    string s;
  };
  std::vector<Item> items;
  CodedBuffer buf;
  int rounds = r.chance(20) ? 2 : 1;
  string expect;
  for (int round = 0; round < rounds; ++round) {
    buf.reset();
    items.clear();
    expect.clear();
    int n = (int)r.skewed(60);
    for (int i = 0; i < n; ++i) {
      Item it{(int)r.below(4), randInt(r), ""};
      if (it.kind >= 2) it.s = randBytes(r, r.chance(5) ? 5000 : 60);
      if (it.kind == 1) it.v = (u32)it.v;
      switch (it.kind) {
        case 0:
          buf.writeVarint(it.v);
          expect += leb(it.v);
          break;
        case 1:
          buf.writeFixed32((u32)it.v);
          for (int k = 0; k < 4; ++k) expect += (char)(it.v >> (8 * k));
          break;
        case 2:
          buf.writeString(it.s);
          expect += leb(it.s.size()) + it.s;
          break;
        case 3:
          buf.writeStringDataWithoutLengthPrefix(it.s);
          expect += it.s;
          break;
      }
      items.push_back(it);
      if (buf.position() != expect.size())
        c.viol("coded:position", Msg() << buf.position());
    }
  }
  string got = buf.contents().str();
  if (got != expect) {
    c.viol("coded:bytes", Msg() << vh::hex(got) << " vs " << vh::hex(expect));
    return;
  }
  auto readAll = [&](const string& data, bool full) {
    Exact e(data);
    CodedBufferParser p{e.sp()};
    size_t pos = 0;
    for (auto& it : items) {
      bool ok;
      size_t len = 0;
      if (it.kind == 0) {
        u64 v = 0x5555;
        ok = p.readVarint64(&v);
        len = leb(it.v).size();
        if (ok && pos + len <= data.size() && v != it.v)
          c.viol("coded:varint-value", Msg() << it.v << " " << v);
      } else if (it.kind == 1) {
        u32 v = 0;
        ok = p.readFixed32(&v);
        len = 4;
        if (ok && pos + len <= data.size() && v != (u32)it.v)
          c.viol("coded:fixed-value", Msg() << it.v << " " << v);
      } else if (it.kind == 2) {
        StringPiece sp;
        ok = p.readStringPiece(&sp);
        len = leb(it.s.size()).size() + it.s.size();
        if (ok && pos + len <= data.size() && sp.str() != it.s)
          c.viol("coded:string-value", vh::hex(it.s));
      } else {
        if (p.remaining() < it.s.size()) return;
        // raw data: skip bytewise through the parser over the same bytes
        size_t old = p.remaining();
        p.limit(old);
        CodedBufferParser q{StringPiece{e.sp().begin() + pos + it.s.size(),
                                        e.sp().end()}};
        p = q;
        pos += it.s.size();
        continue;
      }
      bool should = pos + len <= data.size();
      if (ok != should) {
        c.viol(should ? "coded:reject" : "coded:accepts-truncated",
               Msg() << "item kind " << it.kind << " at " << pos << " of "
                     << data.size());
        return;
      }
      if (!ok) return;
      pos += len;
      if (p.remaining() != data.size() - pos) {
        c.viol("coded:reader-position", Msg() << p.remaining());
        return;
      }
    }
    if (full && !p.atEnd()) c.viol("coded:not-at-end", "");
  };
  readAll(expect, true);
  size_t m = expect.size();
  for (int k = 0; k < 12 && m > 0; ++k) {
    readAll(expect.substr(0, m < 12 ? k % m : r.below(m)), false);
    c.stat("truncations");
  }
  // arbitrary bytes: only memory safety and progress
  string junk = randBytes(r, 40);
  Exact e(junk);
  CodedBufferParser p{e.sp()};
  size_t before = p.remaining() + 1;
  while (p.remaining() < before && p.remaining() <= junk.size()) {
    before = p.remaining();
    u64 v;
    StringPiece sp;
    u32 f;
    bool ok = true;
    switch (r.below(3)) {
      case 0: ok = p.readVarint64(&v); break;
      case 1: ok = p.readStringPiece(&sp); break;
      case 2: ok = p.readFixed32(&f); break;
    }
    if (!ok) break;
  }
  if (p.remaining() > junk.size()) c.viol("coded:past-end", vh::hex(junk));
  c.distinct(expect);
  c.stat("items", items.size());
  c.sample(vh::hex(expect));
}

static Rec randRec(vh::Rng& r) {
  Rec a{};
  a.x = (u32)randInt(r);
  a.y = randInt(r);
  a.z = (i64)randInt(r);
  a.t = r.chance(50);
  const En es[] = {En::A, En::B, En::C};
  a.e = es[r.below(3)];
  for (int i = (int)r.skewed(5); i > 0; --i) a.ss.push_back(randBytes(r, 12));
  for (int i = (int)r.skewed(4); i > 0; --i) {
    In x{(i32)randInt(r), randBytes(r, 10), {}, (float)r.unit()};
    u32 bits = (u32)r.next();
    if (r.chance(50)) memcpy(&x.f, &bits, 4);
    for (int k = (int)r.skewed(6); k > 0; --k) x.v.push_back((i32)randInt(r));
    a.ins.push_back(x);
  }
  a.last = randBytes(r, 10);
  a.tail = (i32)randInt(r);
  return a;
}

static void serial(Ctx& c) {
  auto& r = c.rng;
  Rec a = randRec(r);
  serialization::Saver s;
  s.save(a);
  string data = s.result().str();
  if (s.size() != data.size()) c.viol("serial:size", "");
  {
    Exact e(data);
    serialization::Loader l{e.sp()};
    Rec b = randRec(r);  // overwritten completely
    b.ss.clear();
    b.ins.clear();
    if (!l.load(&b)) {
      c.viol("serial:reject", vh::hex(data));
    } else if (!(a == b)) {
      c.viol("serial:value", vh::hex(data));
    }
  }
  for (size_t k = 0; k < data.size(); ++k) {
    if (data.size() > 60 && !r.chance(30)) continue;
    Exact e(data.substr(0, k));
    serialization::Loader l{e.sp()};
    Rec b{};
    if (l.load(&b)) c.viol("serial:accepts-truncated", vh::hex(data));
    c.stat("truncations");
  }
  {
    Exact e(data + string(1 + r.below(3), (char)r.below(256)));
    serialization::Loader l{e.sp()};
    Rec b{};
    if (l.load(&b)) c.viol("serial:accepts-trailing", vh::hex(data));
  }
  // damaged: never crashes; when it loads, saving it again and loading gives
  // the same value
  for (int k = 0; k < 6; ++k) {
    string d = data;
    int m = 1 + (int)r.below(3);
    for (int i = 0; i < m; ++i) {
      switch (r.below(3)) {
        case 0: d[r.below(d.size())] ^= (char)(1 << r.below(8)); break;
        case 1: d[r.below(d.size())] = (char)r.below(256); break;
        case 2:
          d.insert(r.below(d.size()), leb(randInt(r)));
          break;
      }
    }
    Exact e(d);
    serialization::Loader l{e.sp()};
    Rec b{};
    c.stat("damaged");
    if (l.load(&b)) {
      c.stat("damaged_but_loaded");
      serialization::Saver s2;
      s2.save(b);
      string d2 = s2.result().str();
      Exact e2(d2);
      serialization::Loader l2{e2.sp()};
      Rec b2{};
      if (!l2.load(&b2) || !(b2 == b)) c.viol("serial:reload", vh::hex(d));
      // all bytes were consumed by the value: its canonical form cannot be
      // longer than what was read
      if (d2.size() > d.size() + 8 * 10)
        c.viol("serial:reads-more-than-given", vh::hex(d));
    }
  }
  // a failing inner field must make the whole load fail: the length of the
  // string points past the end while the following fields can still be read
  {
    In x{(i32)r.below(100), "", {}, 1.0f};
    string bad = leb(x.a) + leb(3 + r.below(5) + 5) + leb(0) + string("\0\0\0\0", 4);
    Exact e(bad);
    serialization::Loader l{e.sp()};
    In y{};
    if (l.load(&y)) c.viol("serial:inner-failure-ignored", vh::hex(bad));
  }
  FlatMap<i32, i32> fm;
  std::map<i32, i32> rm;
  for (int i = (int)r.skewed(40); i > 0; --i) {
    i32 k = (i32)r.below(100), v = (i32)randInt(r);
    fm[k] = v;
    rm[k] = v;
  }
  serialization::Saver s3;
  s3.save(fm);
  string d3 = s3.result().str();
  Exact e3(d3);
  serialization::Loader l3{e3.sp()};
  FlatMap<i32, i32> fm2;
  if (!l3.load(&fm2)) {
    c.viol("serial:flatmap-reject", vh::hex(d3));
  } else {
    if (fm2.size() != rm.size()) c.viol("serial:flatmap-size", vh::hex(d3));
    for (auto& p : rm)
      if (fm2.count(p.first) == 0 || fm2.at(p.first) != p.second)
        c.viol("serial:flatmap-value", vh::hex(d3));
  }
  c.distinct(data);
  c.sample(vh::hex(data));
}

static void text(Ctx& c) {
  auto& r = c.rng;
  // parseU64
  string s;
  bool digits = true;
  if (r.chance(60)) {
    s = std::to_string(randInt(r));
    if (r.chance(20)) s += (char)('0' + r.below(10));
    if (r.chance(20)) s = string(r.below(4), '0') + s;
  } else {
    for (int i = (int)r.below(6); i > 0; --i)
      s += r.chance(70) ? (char)('0' + r.below(10)) : (char)r.below(256);
  }
  unsigned __int128 val = 0;
  bool overflow = false;
  digits = !s.empty();
  for (unsigned char ch : s) {
    if (ch < '0' || ch > '9') {
      digits = false;
      break;
    }
    val = val * 10 + (ch - '0');
    if (val > (unsigned __int128)~0ull) overflow = true;
    if (overflow) val = (unsigned __int128)1 << 70;
  }
  {
    Exact e(s);
    u64 got = 0;
    bool ok = parseU64(e.sp(), &got);
    bool want = digits && !overflow;
    if (ok != want)
      c.viol(overflow ? "parse:overflow-accepted"
                      : (want ? "parse:rejects-number" : "parse:accepts-junk"),
             s);
    else if (ok && got != (u64)val)
      c.viol("parse:value", Msg() << s << " -> " << got);
  }
  // printers: numbers and strings
  io::FastPrinter fp;
  io::Printer pp;
  string want;
  int rounds = 1 + (int)r.below(2);
  for (int k = 0; k < rounds; ++k) {
    fp.reset();
    pp.reset();
    want.clear();
    for (int i = (int)r.skewed(20); i > 0; --i) {
      switch (r.below(6)) {
        case 0: {
          i32 v = (i32)randInt(r);
          fp << v;
          pp << v;
          want += std::to_string(v);
          break;
        }
        case 1: {
          u64 v = randInt(r);
          fp << v;
          pp << v;
          want += std::to_string(v);
          break;
        }
        case 2: {
          i64 v = (i64)randInt(r);
          fp << v;
          pp << v;
          want += std::to_string(v);
          break;
        }
        case 3: {
          string b = randBytes(r, r.chance(10) ? 3000 : 20);
          std::replace(b.begin(), b.end(), '\n', ' ');
          Exact e(b);
          fp << e.sp();
          pp << e.sp();
          want += b;
          break;
        }
        case 4: {
          fp << "lit\t";
          pp << "lit\t";
          want += "lit\t";
          break;
        }
        case 5: {
          char ch = (char)(32 + r.below(90));
          fp << ch;
          pp << ch;
          want += ch;
          break;
        }
      }
    }
    if (fp.result().str() != want)
      c.viol("print:fast", Msg() << fp.result().str() << " vs " << want);
    if (pp.result().str() != want)
      c.viol("print:printer", Msg() << pp.result().str() << " vs " << want);
  }
  {
    float f = (float)((r.unit() - 0.5) * pow(10, (double)r.range(-3, 6)));
    fp.reset();
    fp.write("{:.6}", f);
    char b[64];
    snprintf(b, sizeof b, "%.6g", f);
    string got = fp.result().str();
    if (fabs(atof(got.c_str()) - f) > 1e-5 * fabs(f) + 1e-12)
      c.viol("print:float", Msg() << got << " vs " << b);
  }
  // StringPiece comparison and hashing agree with std::string
  string a = randBytes(r, 12), b = r.chance(50) ? a : randBytes(r, 12);
  if (!b.empty() && r.chance(50)) b[b.size() - 1] = (char)r.below(3);
  Exact ea(a), eb(b);
  if ((ea.sp() == eb.sp()) != (a == b))
    c.viol("stringpiece:equal", vh::hex(a) + " " + vh::hex(b));
  if ((ea.sp() != eb.sp()) == (a == b))
    c.viol("stringpiece:unequal", vh::hex(a) + " " + vh::hex(b));
  if ((ea.sp() < eb.sp()) != (a < b))
    c.viol("stringpiece:less", vh::hex(a) + " " + vh::hex(b));
  if (a == b && std::hash<StringPiece>()(ea.sp()) !=
                    std::hash<StringPiece>()(eb.sp()))
    c.viol("stringpiece:hash", vh::hex(a));
  if (!a.empty()) {
    size_t f = r.below(a.size()), t = f + r.below(a.size() - f + 1);
    if (ea.sp().slice(f, t).str() != a.substr(f, t - f) ||
        ea.sp().from(f).str() != a.substr(f) ||
        ea.sp().take(f).str() != a.substr(0, f))
      c.viol("stringpiece:slice", vh::hex(a));
  }
  c.distinct(s + "|" + want);
  c.sample(s + " | " + want);
}

// ---------------------------------------------------------------- C21

struct BadHash {
  size_t operator()(int x) const { return (size_t)(x % 3) << 8; }
};
struct MidHash {
  size_t operator()(int x) const { return (size_t)x * 0x101; }
};
struct StrBad {
  size_t operator()(const string& s) const { return s.size() << 8; }
};

// counts live objects, detects double destruction
struct Tracked {
  static std::set<const void*>& live() {
    static std::set<const void*> l;
    return l;
  }
  static int& errors() {
    static int e = 0;
    return e;
  }
  int v;
  std::unique_ptr<int> heap;
  explicit Tracked(int x = 0) : v(x), heap(new int(x)) { born(); }
  Tracked(const Tracked& o) : v(o.v), heap(new int(o.v)) { born(); }
  Tracked(Tracked&& o) noexcept : v(o.v), heap(std::move(o.heap)) {
    if (!heap) heap.reset(new int(v));
    o.heap.reset(new int(-1));
    o.v = -1;
    born();
  }
  Tracked& operator=(const Tracked& o) {
    v = o.v;
    heap.reset(new int(o.v));
    return *this;
  }
  Tracked& operator=(Tracked&& o) noexcept {
    v = o.v;
    heap.reset(new int(v));
    return *this;
  }
  ~Tracked() {
    if (live().erase(this) != 1) ++errors();
  }
  void born() {
    if (!live().insert(this).second) ++errors();
  }
  bool operator==(const Tracked& o) const { return v == o.v && *heap == *o.heap; }
  bool operator!=(const Tracked& o) const { return !(*this == o); }
};

template <typename K, typename V, typename H>
static void mapCase(Ctx& c, const char* name, std::function<K(int)> mk,
                    std::function<V(int)> mv) {
  auto& r = c.rng;
  using FM = FlatMap<K, V, H>;
  std::unique_ptr<FM> m{r.chance(50) ? new FM() : new FM((size_t)r.below(40))};
  std::map<int, int> ref;
  string log;
  int range = 1 + (int)r.skewed(200);
  int ops = 1 + (int)r.skewed(c.thorough ? 1500 : 400);
  auto check = [&]() {
    if (m->size() != ref.size() || m->empty() != ref.empty()) {
      c.viol(string("flatmap:size:") + name, log);
      return false;
    }
    size_t n = 0;
    for (auto& p : *m) {
      ++n;
      (void)p;
    }
    if (n != ref.size()) {
      c.viol(string("flatmap:iteration:") + name, log);
      return false;
    }
    for (auto& p : ref) {
      auto it = m->find(mk(p.first));
      if (it == m->end() || !(it->second == mv(p.second))) {
        c.viol(string("flatmap:lookup:") + name, log);
        return false;
      }
    }
    return true;
  };
  for (int i = 0; i < ops; ++i) {
    int k = (int)r.below(range), v = (int)r.below(1000);
    int op = (int)r.below(24);
    if (log.size() < 3000) log += Msg() << op << ":" << k << " ";
    if (op < 6) {
      (*m)[mk(k)] = mv(v);
      ref[k] = v;
    } else if (op < 9) {
      auto x = m->insert(std::make_pair(mk(k), mv(v)));
      auto y = ref.insert({k, v});
      if (x.second != y.second || !(x.first->second == mv(y.first->second)))
        c.viol(string("flatmap:insert:") + name, log);
    } else if (op < 11) {
      V& x = m->findOrInsert(mk(k), [&] { return mv(v); });
      auto y = ref.insert({k, v});
      if (!(x == mv(y.first->second)))
        c.viol(string("flatmap:findOrInsert:") + name, log);
    } else if (op < 16) {
      size_t x = m->erase(mk(k)), y = ref.erase(k);
      if (x != y) c.viol(string("flatmap:erase:") + name, log);
    } else if (op < 20) {
      bool x = m->count(mk(k)) != 0, y = ref.count(k) != 0;
      bool z = m->exists(mk(k));
      if (x != y || z != y) c.viol(string("flatmap:count:") + name, log);
    } else if (op == 20) {
      if (r.chance(30)) {
        m->clear();
        ref.clear();
      }
    } else if (op == 21) {
      if (r.chance(40)) {
        m->clear_no_resize();
        ref.clear();
      }
    } else if (op == 22) {
      switch (r.below(4)) {
        case 0: {
          std::unique_ptr<FM> n{new FM(*m)};
          if (!(*n == *m)) c.viol(string("flatmap:copy:") + name, log);
          m = std::move(n);
          break;
        }
        case 1: {
          FM n;
          n[mk(1)] = mv(1);
          n = *m;
          if (!(n == *m)) c.viol(string("flatmap:assign:") + name, log);
          n.swap(*m);
          break;
        }
        case 2: m->reserve(r.below(300)); break;
        case 3: {
          FM n;
          n.swap(*m);
          m->swap(n);
          break;
        }
      }
    } else {
      if (!check()) return;
    }
    if (c.violations > 4) return;
  }
  check();
  c.stat("operations", ops);
  c.distinct(string(name) + log);
  c.sample(string(name) + " " + log.substr(0, 300));
}

template <typename H>
static void setCase(Ctx& c, const char* name) {
  auto& r = c.rng;
  using FS = FlatSet<string, H>;
  std::unique_ptr<FS> m{new FS()};
  std::set<string> ref;
  string log;
  int range = 1 + (int)r.skewed(200);
  auto mk = [](int k) { return string(k % 5, 'x') + std::to_string(k); };
  int ops = 1 + (int)r.skewed(400);
  for (int i = 0; i < ops; ++i) {
    string k = mk((int)r.below(range));
    int op = (int)r.below(16);
    if (log.size() < 3000) log += Msg() << op << ":" << k << " ";
    if (op < 6) {
      bool x = m->insert(k).second, y = ref.insert(k).second;
      if (x != y) c.viol(string("flatset:insert:") + name, log);
    } else if (op < 11) {
      if (m->erase(k) != ref.erase(k))
        c.viol(string("flatset:erase:") + name, log);
    } else if (op < 13) {
      if (m->count(k) != ref.count(k) || m->contains(k) != (ref.count(k) != 0))
        c.viol(string("flatset:count:") + name, log);
    } else if (op == 13) {
      if (r.chance(50)) {
        r.chance(50) ? m->clear() : m->clear_no_resize();
        ref.clear();
      }
    } else if (op == 14) {
      std::unique_ptr<FS> n{new FS(*m)};
      if (!(*n == *m)) c.viol(string("flatset:copy:") + name, log);
      m = std::move(n);
    } else {
      std::set<string> all;
      size_t n = 0;
      for (auto& x : *m) {
        all.insert(x);
        ++n;
      }
      if (all != ref || n != ref.size() || m->size() != n) {
        c.viol(string("flatset:content:") + name, log);
        return;
      }
    }
    if (c.violations > 4) return;
  }
  c.stat("operations", ops);
  c.distinct(string(name) + log);
}

template <typename T, int N>
static void ivecCase(Ctx& c, const char* name, std::function<T(int)> mk) {
  auto& r = c.rng;
  using IV = InlinedVector<T, N>;
  string log;
  size_t liveBefore = Tracked::live().size();
  {
    std::unique_ptr<IV> v{new IV()};
    std::vector<int> ref;
    int ops = 1 + (int)r.skewed(200);
    auto check = [&]() {
      bool ok = v->size() == ref.size() && v->empty() == ref.empty();
      for (size_t i = 0; ok && i < ref.size(); ++i)
        ok = (*v)[i] == mk(ref[i]) && v->at(i) == mk(ref[i]);
      size_t i = 0;
      if (ok)
        for (auto& x : *v) {
          if (i >= ref.size() || !(x == mk(ref[i]))) ok = false;
          ++i;
        }
      if (ok && !ref.empty())
        ok = v->front() == mk(ref.front()) && v->back() == mk(ref.back());
      if (ok && v->capacity() < v->size()) ok = false;
      if (!ok) c.viol(string("inlined_vector:") + name, log);
      return ok;
    };
    for (int i = 0; i < ops; ++i) {
      int op = (int)r.below(14), k = (int)r.below(1000);
      if (log.size() < 3000) log += Msg() << op << " ";
      switch (op) {
        case 0:
        case 1:
        case 2:
        case 3: v->push_back(mk(k)); ref.push_back(k); break;
        case 4: v->emplace_back(mk(k)); ref.push_back(k); break;
        case 5:
          if (!ref.empty()) {
            v->pop_back();
            ref.pop_back();
          }
          break;
        case 6: {
          size_t n = r.skewed(60);
          T e = mk(k);
          v->resize(n, e);
          ref.resize(n, k);
          break;
        }
        case 7: {
          size_t n = r.below(ref.size() + 1);
          v->resize(n);
          ref.resize(n);
          break;
        }
        case 8:
          if (!ref.empty()) {
            size_t p = r.below(ref.size());
            auto it = v->erase(v->begin() + p);
            if (it != v->begin() + p) c.viol("inlined_vector:erase-result", log);
            ref.erase(ref.begin() + p);
          }
          break;
        case 9: {
          size_t p = r.below(ref.size() + 1);
          v->insert(v->begin() + p, mk(k));
          ref.insert(ref.begin() + p, k);
          break;
        }
        case 10: {
          std::unique_ptr<IV> n{new IV(*v)};
          if (!(*n == *v)) c.viol("inlined_vector:copy", log);
          v = std::move(n);
          break;
        }
        case 11: {
          IV n;
          n.push_back(mk(5));
          if (r.chance(50)) {
            n = *v;
          } else {
            n.swap(*v);
          }
          n.swap(*v);
          if (r.chance(1)) v->clear(), ref.clear();
          if (n.size() == 1 && ref.size() != 1 && v->size() == ref.size()) {
          }
          break;
        }
        case 12:
          v->reserve(r.below(80));
          break;
        case 13:
          if (r.chance(20)) {
            v->clear();
            ref.clear();
          } else if (!ref.empty()) {
            size_t a = r.below(ref.size()), b = a + r.below(ref.size() - a + 1);
            v->erase(v->begin() + a, v->begin() + b);
            ref.erase(ref.begin() + a, ref.begin() + b);
          }
          break;
      }
      if (!check()) return;
    }
    c.stat("operations", ops);
  }
  if (Tracked::live().size() != liveBefore || Tracked::errors() != 0) {
    c.viol(string("inlined_vector:lifetime:") + name, log);
    Tracked::errors() = 0;
    Tracked::live().clear();
  }
  c.distinct(string(name) + log);
}

static void containers(Ctx& c) {
  auto id = [](int x) { return x; };
  auto str = [](int x) { return string(x % 40, 'a') + std::to_string(x); };
  auto trk = [](int x) { return Tracked(x); };
  size_t live = Tracked::live().size();
  switch (c.idx % 10) {
    case 0: mapCase<int, int, std::hash<int>>(c, "int", id, id); break;
    case 1: mapCase<int, int, BadHash>(c, "int-collide", id, id); break;
    case 2: mapCase<int, string, MidHash>(c, "int-string", id, str); break;
    case 3: mapCase<string, string, StrBad>(c, "string-collide", str, str); break;
    case 4: mapCase<int, Tracked, MidHash>(c, "tracked", id, trk); break;
    case 5: setCase<std::hash<string>>(c, "string"); break;
    case 6: setCase<StrBad>(c, "string-collide"); break;
    case 7: ivecCase<int, 4>(c, "int4", id); break;
    case 8: ivecCase<string, 3>(c, "string3", str); break;
    case 9: ivecCase<Tracked, 5>(c, "tracked5", trk); break;
  }
  if (Tracked::live().size() != live || Tracked::errors() != 0) {
    c.viol("container:lifetime", Msg() << "case kind " << c.idx % 10);
    Tracked::errors() = 0;
    Tracked::live().clear();
  }
}

static void lru(Ctx& c) {
  auto& r = c.rng;
  size_t cap = 1 + r.skewed(20);
  LruCache<int, int> cache(cap);
  std::deque<int> recent;  // distinct keys, most recent first
  std::set<int> everInserted;
  int range = 1 + (int)r.skewed(80);
  int ops = (int)r.skewed(400);
  string log;
  auto touch = [&](int k) {
    recent.erase(std::remove(recent.begin(), recent.end(), k), recent.end());
    recent.push_front(k);
  };
  for (int i = 0; i < ops; ++i) {
    int k = (int)r.below(range);
    int out = -7;
    bool hit = cache.tryFind(k, &out);
    log += Msg() << k << (hit ? "+" : "-") << " ";
    if (hit) {
      if (!everInserted.count(k) || out != k * 31 + 5) {
        c.viol("lru:value", log);
        return;
      }
      touch(k);
      c.stat("hits");
    } else {
      size_t pos = std::find(recent.begin(), recent.end(), k) - recent.begin();
      // a value used so recently must still be there
      if (pos < recent.size() && pos + 1 < cap) {
        c.viol("lru:lost-recent", Msg() << "cap " << cap << " pos " << pos
                                        << " " << log);
        return;
      }
      cache.insert(k, k * 31 + 5);
      everInserted.insert(k);
      touch(k);
      int o2 = 0;
      if (r.chance(30) && (!cache.tryFind(k, &o2) || o2 != k * 31 + 5)) {
        c.viol("lru:just-inserted", log);
        return;
      }
      c.stat("misses");
    }
  }
  // bounded: of all keys not more than twice the capacity are still there
  size_t present = 0;
  for (int k = 0; k < range; ++k) {
    LruCache<int, int> copy(cache);
    int o;
    if (copy.tryFind(k, &o)) ++present;
  }
  if (present > 2 * cap) c.viol("lru:unbounded", Msg() << present << " cap " << cap);
  c.distinct(Msg() << cap << log);
}

static void arena(Ctx& c) {
  auto& r = c.rng;
  size_t page = 4096u << r.below(4);
  memory::Manager mgr{page};
  auto core = mgr.core();
  std::unique_ptr<memory::PoolAlloc> core2;
  if (r.chance(30)) core2 = mgr.core();
  struct Block {
    u8* p;
    size_t n;
    u8 fill;
  };
  string log;
  size_t maxUsed = 0;
  int rounds = 1 + (int)r.below(4);
  int allocs = 1 + (int)r.skewed(150);
  std::vector<std::pair<size_t, size_t>> plan;
  for (int i = 0; i < allocs; ++i)
    plan.push_back({r.skewed(r.chance(10) ? page - 4096 + 1 : 300),
                    (size_t)1 << r.below(8)});
  for (int round = 0; round < rounds; ++round) {
    std::vector<Block> blocks;
    for (int i = 0; i < allocs; ++i) {
      size_t n = plan[i].first, al = plan[i].second;
      auto* a = core2 && (i % 3 == 0) ? core2.get() : core.get();
      u8* p = (u8*)a->allocate_memory(n, al);
      if (((uintptr_t)p) % al != 0) {
        c.viol("arena:alignment", Msg() << (void*)p << " al " << al);
        return;
      }
      u8 f = (u8)r.below(256);
      if (n > 0) memset(p, f, n);
      blocks.push_back({p, n, f});
      if (i % 16 == 15 || i + 1 == allocs) {
        for (auto& b : blocks)
          for (size_t k = 0; k < b.n; ++k)
            if (b.p[k] != b.fill) {
              c.viol("arena:overlap", Msg() << "block of " << b.n);
              return;
            }
      }
    }
    std::sort(blocks.begin(), blocks.end(),
              [](const Block& a, const Block& b) { return a.p < b.p; });
    for (size_t i = 1; i < blocks.size(); ++i)
      if (blocks[i - 1].p + blocks[i - 1].n > blocks[i].p &&
          blocks[i].n > 0 && blocks[i - 1].n > 0)
        c.viol("arena:overlap", "ranges");
    if (round == 0) {
      maxUsed = mgr.used();
    } else if (mgr.used() > maxUsed) {
      // same requests again: nothing new may be needed
      c.viol("arena:grows-on-reuse", Msg() << maxUsed << " -> " << mgr.used());
    }
    mgr.reset();
    core->reset();
    if (core2) core2->reset();
    c.stat("blocks", blocks.size());
  }
  c.distinct(Msg() << page << allocs << plan[0].first << rounds);
}

static void charbuf(Ctx& c) {
  auto& r = c.rng;
  CharBuffer<512> cb;
  std::vector<std::pair<StringPiece, string>> kept;
  int ops = (int)r.skewed(150);
  for (int i = 0; i < ops; ++i) {
    string s = randBytes(r, r.chance(20) ? 700 : 90);
    {
      Exact e(s);
      StringPiece sp = e.sp();
      bool ok = cb.import(&sp);
      if (ok != (s.size() <= 512)) {
        c.viol("charbuffer:accept", Msg() << s.size());
        return;
      }
      if (ok) kept.push_back({sp, s});
    }
    if (r.chance(3)) {
      cb.reset();
      kept.clear();
    }
    if (r.chance(3)) {
      CharBuffer<512> o{std::move(cb)};
      for (auto& p : kept)
        if (p.first.str() != p.second) c.viol("charbuffer:moved", vh::hex(p.second));
      kept.clear();
      cb = CharBuffer<512>{};
      StringPiece sp{"abc"};
      cb.import(&sp);
      kept.push_back({sp, "abc"});
      if (r.chance(50)) kept.clear(), cb.reset();
    }
    if (i % 10 == 9)
      for (auto& p : kept)
        if (p.first.str() != p.second) {
          c.viol("charbuffer:content", vh::hex(p.second));
          return;
        }
  }
  for (auto& p : kept)
    if (p.first.str() != p.second) c.viol("charbuffer:content", vh::hex(p.second));
  c.stat("strings", kept.size());
  c.distinct(Msg() << ops << kept.size());
}

static void slices(Ctx& c) {
  auto& r = c.rng;
  size_t rows = r.skewed(8), cols = 1 + r.skewed(8);
  std::vector<int> mem(rows * cols);
  for (auto& x : mem) x = (int)r.below(1000);
  MutableArraySlice<int> ms{&mem};
  Sliceable<int> s{ms, cols, rows};
  for (size_t i = 0; i < rows; ++i) {
    auto row = s.row((i32)i);
    if (row.size() != cols) c.viol("slice:row-size", "");
    for (size_t j = 0; j < cols; ++j)
      if (&row.at(j) != &mem[i * cols + j] ||
          &s.at(i, j) != &mem[i * cols + j])
        c.viol("slice:cell", "");
  }
  size_t a = r.below(rows + 1), b = a + r.below(rows - a + 1);
  if (rows > 0 && a < rows) {
    auto sub = s.rows(a, b);
    if (sub.numRows() != b - a || sub.rowSize() != cols ||
        sub.size() != (b - a) * cols)
      c.viol("slice:rows", "");
    for (size_t i = 0; i < sub.size(); ++i)
      if (&sub[i] != &mem[a * cols + i]) c.viol("slice:rows-cell", "");
  }
  auto top = s.topRows(b);
  if (top.numRows() != b || top.size() != b * cols) c.viol("slice:top", "");
  ArraySlice<int> as{mem};
  if (as.size() != mem.size()) c.viol("slice:size", "");
  if (!mem.empty()) {
    size_t p = r.below(mem.size()), n = r.below(mem.size() - p + 1);
    ArraySlice<int> part{as, p, n};
    std::vector<int> want(mem.begin() + p, mem.begin() + p + n);
    if (std::vector<int>(part.begin(), part.end()) != want)
      c.viol("slice:sub", "");
  }
  // compact: erase marked positions, keep order
  {
    std::vector<int> v = mem, er, want;
    for (size_t i = 0; i < v.size(); ++i) {
      if (r.chance(30)) er.push_back((int)i);
      else want.push_back(v[i]);
    }
    if (!er.empty()) {
      util::compact(v, er);
      v.resize(want.size());
      if (v != want) c.viol("slice:compact", "");
    }
  }
  // n-th element partition used by the beam
  if (mem.size() > 3) {
    std::vector<int> v = mem;
    size_t lo = 1 + r.below(v.size() - 1), hi = lo + r.below(v.size() - lo + 1);
    auto it = util::partition_stl(v.begin(), v.end(), std::greater<int>(), lo, hi);
    size_t n = it - v.begin();
    std::vector<int> sv = mem, sv2 = v;
    std::sort(sv.begin(), sv.end());
    std::sort(sv2.begin(), sv2.end());
    if (sv != sv2) c.viol("partition:permutation", "");
    if (n < lo || n > hi) c.viol("partition:size", "");
    int mn = *std::min_element(v.begin(), v.begin() + n);
    for (size_t i = n; i < v.size(); ++i)
      if (v[i] > mn) c.viol("partition:order", "");
  }
  c.distinct(Msg() << rows << "," << cols << "," << a << "," << b << ","
                   << (mem.empty() ? 0 : mem[0]));
}

// ---------------------------------------------------------------- C22

static void csv_wellformed(Ctx& c) {
  auto& r = c.rng;
  const char seps[] = {',', '\t', ' ', ';'};
  char sep = r.chance(70) ? ',' : seps[r.below(4)];
  const char quotes[] = {'"', '\'', '\x01'};
  char quote = r.chance(80) ? '"' : quotes[r.below(3)];
  std::vector<std::vector<string>> rows;
  string text;
  int nrows = (int)r.skewed(12);
  int eol = (int)r.below(3);  // LF, CRLF, mixed
  bool lastNl = r.chance(60);
  std::vector<bool> multi;
  for (int i = 0; i < nrows; ++i) {
    std::vector<string> row;
    string line;
    int nf = 1 + (int)r.skewed(6);
    for (int j = 0; j < nf; ++j) {
      string f;
      bool quoted = r.chance(30);
      int len = r.chance(25) ? 0
                             : (int)r.skewed(quoted && r.chance(4)
                                                 ? (c.idx % 50 == 0 ? 40000 : 800)
                                                 : 10);
      for (int k = 0; k < len; ++k) {
        if (quoted && r.chance(25)) {
          // escaped fields have to fit into the 16K buffer of the reader
          const char sp[] = {sep, '\n', '\r', '\0', quote, quote};
          f += sp[r.below(len > 5000 ? 4 : 6)];
        } else if (r.chance(20)) {
          f += vt::randomChar(r);
        } else {
          f += (char)('a' + r.below(26));
        }
      }
      if (!quoted) {
        string g;
        for (char ch : f)
          if (ch != sep && ch != quote && ch != '\n' && ch != '\r') g += ch;
        f = g;
      }
      if (quoted && len > 5000)
        f.erase(std::remove(f.begin(), f.end(), quote), f.end());
      row.push_back(f);
      if (j) line += sep;
      if (quoted) {
        line += quote;
        for (char ch : f) {
          line += ch;
          if (ch == quote) line += quote;
        }
        line += quote;
      } else {
        line += f;
      }
    }
    bool last = i + 1 == nrows;
    if (last && !lastNl && line.empty()) lastNl = true;
    text += line;
    if (!last || lastNl)
      text += (eol == 0 || (eol == 2 && r.chance(50))) ? "\n" : "\r\n";
    rows.push_back(row);
  }
  CsvReader rd{sep, quote};
  Exact e(text);
  string path;
  if (r.chance(20) && !text.empty()) {
    path = c.tmp("a.csv");
    std::ofstream(path, std::ios::binary) << text;
    auto s = rd.open(path);
    if (!s) {
      c.viol("csv:open", path);
      return;
    }
    c.stat("from_file");
  } else {
    rd.initFromMemory(e.sp());
  }
  size_t n = 0;
  while (rd.nextLine()) {
    if (n >= rows.size()) {
      c.viol("csv:extra-rows", text);
      return;
    }
    auto& row = rows[n];
    std::vector<string> got;
    for (int i = 0; i < rd.numFields(); ++i) got.push_back(rd.field(i).str());
    if (got != row) {
      c.viol("csv:fields", Msg() << "row " << n << " of " << text);
      return;
    }
    ++n;
    if (rd.lineNumber() != (i64)n) {
      c.viol("csv:line-number", text);
      return;
    }
  }
  if (n != rows.size()) {
    c.viol("csv:missing-rows", Msg() << n << " of " << rows.size() << ": "
                                     << vh::hex(text.substr(0, 600)));
    return;
  }
  if (rd.bytePosition() != rd.byteSize()) c.viol("csv:not-at-end", text);
  if (rd.nextLine()) c.viol("csv:after-end", text);
  c.stat("rows", n);
  c.distinct(text);
  c.sample(text);
}

static void csv_junk(Ctx& c) {
  auto& r = c.rng;
  string text;
  const char al[] = {'a', ',', '"', '\n', '\r', '"', ',', '\0', 'b', ' '};
  int n = (int)r.skewed(40);
  for (int i = 0; i < n; ++i) text += al[r.below(10)];
  Exact e(text);
  CsvReader rd;
  rd.initFromMemory(e.sp());
  int rows = 0;
  i64 last = -1;
  while (rd.nextLine()) {
    ++rows;
    if (rd.bytePosition() <= last || rd.bytePosition() > rd.byteSize()) {
      c.viol("csv:no-progress", text);
      return;
    }
    last = rd.bytePosition();
    size_t total = 0;
    for (int i = 0; i < rd.numFields(); ++i) {
      string s = rd.field(i).str();
      total += s.size();
    }
    if (total > text.size()) c.viol("csv:too-much-data", text);
    if (rows > (int)text.size() + 1) {
      c.viol("csv:endless", text);
      return;
    }
  }
  bool malformed = rd.bytePosition() != rd.byteSize();
  c.stat(malformed ? "malformed" : "wellformed");
  if (malformed) {
    // stays in the error state
    for (int i = 0; i < 3; ++i)
      if (rd.nextLine()) c.viol("csv:recovers-silently", text);
  }
  // reference: a text without quotes is always well formed
  if (malformed && text.find('"') == string::npos)
    c.viol("csv:rejects-plain", text);
  // an odd number of quotes is never well formed
  size_t q = std::count(text.begin(), text.end(), '"');
  if (!malformed && q % 2 == 1) c.viol("csv:accepts-unbalanced", text);
  c.distinct(text);
}

static void csv_exhaustive(Ctx& c) {
  // all texts up to length 8 over {a , " \n}: case = block of texts
  static const char al[] = {'a', ',', '"', '\n'};
  int per = 4096;
  for (int k = 0; k < per; ++k) {
    u64 code = (u64)c.idx * per + k;
    string text;
    int len = 0;
    u64 base = 0, cnt = 1;
    while (code >= base + cnt) {
      base += cnt;
      cnt *= 4;
      ++len;
    }
    if (len > 9) return;
    u64 v = code - base;
    for (int i = 0; i < len; ++i) {
      text += al[v % 4];
      v /= 4;
    }
    auto ref = vt::parseCsv(text, ',', '"');
    Exact e(text);
    CsvReader rd;
    rd.initFromMemory(e.sp());
    size_t n = 0;
    bool bad = false;
    while (rd.nextLine()) {
      if (n >= ref.rows.size()) {
        c.viol("csv:extra-rows", text);
        return;
      }
      std::vector<string> got;
      for (int i = 0; i < rd.numFields(); ++i) got.push_back(rd.field(i).str());
      if (got != ref.rows[n]) {
        c.viol("csv:fields", text);
        bad = true;
      }
      ++n;
    }
    if (!bad && n != ref.rows.size()) c.viol("csv:missing-rows", text);
    if ((rd.bytePosition() == rd.byteSize()) != ref.ok)
      c.viol(ref.ok ? "csv:rejects" : "csv:accepts", text);
    c.stat("texts");
  }
  c.distinct(Msg() << c.idx);
}

// number of mappings of a file in this process
static int mappingsOf(const string& path) {
  std::ifstream maps("/proc/self/maps");
  string line;
  int n = 0;
  while (std::getline(maps, line)) n += line.find(path) != string::npos;
  return n;
}

static void mapped(Ctx& c) {
  auto& r = c.rng;
  string path = c.tmp("m.bin");
  string data =
      randBytes(r, r.chance(50) ? 20000 : r.chance(10) ? 0 : 200);
  if (r.chance(10)) data.clear();
  std::ofstream(path, std::ios::binary) << data;
  {
    MappedFile f;
    auto s = f.open(path, MMapType::ReadOnly);
    if (!s) {
      c.viol("mmap:open", "");
      return;
    }
    if (f.size() != data.size()) c.viol("mmap:size", "");
    if (!data.empty()) {
      std::vector<MappedFileFragment> frags;
      std::vector<std::pair<size_t, size_t>> what;
      int n = 1 + r.below(4);
      for (int i = 0; i < n; ++i) {
        size_t off = r.below(data.size());
        size_t len = 1 + r.below(data.size() - off);
        MappedFileFragment frag;
        auto s2 = f.map(&frag, off, len);
        if (!s2) {
          c.viol("mmap:map", Msg() << off << " " << len);
          continue;
        }
        if (frag.asStringPiece().str() != data.substr(off, len))
          c.viol("mmap:content", Msg() << off << " " << len);
        // growing the vector moves the fragments
        frags.push_back(std::move(frag));
        what.emplace_back(off, len);
      }
      auto verify = [&](const char* after) {
        for (size_t i = 0; i < frags.size(); ++i)
          if (frags[i].asStringPiece().str() !=
              data.substr(what[i].first, what[i].second))
            c.viol("mmap:moved-content",
                   Msg() << after << " " << what[i].first << " "
                         << what[i].second);
        if (mappingsOf(path) != (int)frags.size())
          c.viol("mmap:mappings", Msg() << after << ": " << mappingsOf(path)
                                        << " mappings of " << frags.size()
                                        << " fragments");
      };
      // separate mappings of consecutive pages may be joined by the system,
      // which shows as fewer lines: only count when they can not be
      auto separate = [&] {
        for (size_t i = 0; i < frags.size(); ++i)
          for (size_t j = 0; j < frags.size(); ++j) {
            size_t e = (what[i].first + what[i].second + 4095) / 4096;
            if (i != j && e == what[j].first / 4096) return false;
          }
        return true;
      };
      for (size_t i = 0; i < frags.size(); ++i)
        if (frags[i].asStringPiece().str() !=
            data.substr(what[i].first, what[i].second))
          c.viol("mmap:moved-content", Msg() << "growing");
      if (separate()) verify("moving");
      if (frags.size() > 1) {
        // the target's own mapping goes away
        size_t i = r.below(frags.size() - 1);
        frags[i] = std::move(frags.back());
        what[i] = what.back();
        frags.pop_back();
        what.pop_back();
        if (separate()) verify("assignment");
      }
      if (r.chance(50)) {
        frags.back().unmap();
        frags.pop_back();
        what.pop_back();
        if (separate()) verify("unmap");
      }
      if (r.chance(50)) {
        // mappings live on after the file is closed
        f.close();
        for (size_t i = 0; i < frags.size(); ++i)
          if (frags[i].asStringPiece().str() !=
              data.substr(what[i].first, what[i].second))
            c.viol("mmap:closed-content", "");
      } else {
        // beyond the end
        MappedFileFragment h;
        auto s3 = f.map(&h, r.below(data.size() + 1), data.size() + 1);
        c.stat(s3 ? "past_end_mapped" : "past_end_rejected");
      }
    }
  }
  if (mappingsOf(path) != 0)
    c.viol("mmap:not-released", Msg() << mappingsOf(path) << " mappings left");
  {
    FullyMappedFile ff;
    if (ff.contents().size() != 0) c.viol("mmap:contents-unopened", "");
    int n = 1 + r.below(3);
    for (int i = 0; i < n; ++i) {
      auto s = ff.open(path);
      if (!s)
        c.viol("mmap:full-open", Msg() << s);
      else if (ff.contents().str() != data)
        c.viol("mmap:full-content", "");
      if (r.chance(50)) ff.close();
    }
    FullyMappedFile missing;
    if (missing.open(path + ".none")) c.viol("mmap:opens-missing-file", "");
    if (missing.contents().size() != 0) c.viol("mmap:contents-missing", "");
  }
  if (mappingsOf(path) != 0)
    c.viol("mmap:full-not-released",
           Msg() << mappingsOf(path) << " mappings left");
  c.distinct(data);
}

int main(int argc, const char** argv) {
  return vh::run(argc, argv,
                 {{"utf8_all", utf8_all},
                  {"utf8_bytes", utf8_bytes},
                  {"utf8_str", utf8_str},
                  {"coded", coded},
                  {"serial", serial},
                  {"text", text},
                  {"containers", containers},
                  {"lru", lru},
                  {"arena", arena},
                  {"charbuf", charbuf},
                  {"slices", slices},
                  {"mapped", mapped},
                  {"csv_wellformed", csv_wellformed},
                  {"csv_junk", csv_junk},
                  {"csv_exhaustive", csv_exhaustive}});
}
