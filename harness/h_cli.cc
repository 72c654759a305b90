// C23: settings of the command line tool. parseArgs() is run on random command
// lines and configuration files and compared with an independent model.
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <fstream>
#include <map>

#include "jumandic/shared/jumanpp_args.h"
#include "core_config.h"
#include "vh.h"

using namespace jumanpp;
using namespace vh;
using jumandic::InputType;
using jumandic::JumanppConf;
using jumandic::OutputType;
using std::string;
using std::vector;

namespace {

// what one layer (command line, configuration file) says
struct Layer {
  std::map<string, string> str;
  std::map<string, i32> num;
  std::map<string, float> flt;
  vector<string> inputs;
  vector<string> rnnFields;
  bool hasFields = false;
  int outType = -1;  // OutputType
  bool partial = false;
  bool bad = false;
  vector<string> args;
};

string word(Rng& r, bool spaces) {
  static const char* pool[] = {"a",    "x1", "日本", "_",  ",",   "|", "=",  "a=b", "::", "こ",
                               "q\"q", "é",  "#",    "\\", "%s", "+", "0", "~",   "'",  "&"};
  string s;
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; ++i) {
    s += r.pick(pool);
    if (spaces && r.chance(10)) s += " ";
  }
  return s;
}

string fileName(Rng& r, const char* base) { return string(base) + std::to_string(r.below(50)); }

struct NumOpt { const char* name; const char* key; int lo, hi; };
const NumOpt numOpts[] = {{"beam", "beam", 1, 40},
                          {"global-beam", "gbeam", -1, 40},
                          {"right-beam", "rbeam", 0, 40},
                          {"right-check", "rcheck", -2, 40}};
struct StrOpt { const char* name; char sh; const char* key; };
const StrOpt strOpts[] = {{"output", 'o', "output"},          {"model", 0, "model"},
                          {"rnn-model", 0, "rnnmodel"},       {"graphviz-dir", 0, "dot"},
                          {"segment-separator", 0, "sep"},    {"rnn-unk", 0, "unk"},
                          {"rnn-eos", 0, "eos"},              {"rnn-separator", 0, "rsep"}};
const char* fltOpts[] = {"rnn-nce-bias", "rnn-unk-constant", "rnn-unk-length", "feature-weight-perceptron",
                         "feature-weight-rnn"};

// --name=value, or in two arguments if it can not be mistaken for an option
void spell(Rng& r, Layer& l, const string& name, char sh, const string& v) {
  bool plain = !v.empty() && v[0] != '-';
  int k = (int)r.below(3);
  if (sh && plain && k == 0) {
    if (r.chance(50)) {
      l.args.push_back(string("-") + sh);
      l.args.push_back(v);
    } else {
      l.args.push_back(string("-") + sh + v);
    }
  } else if (plain && k == 1) {
    l.args.push_back("--" + name);
    l.args.push_back(v);
  } else {
    l.args.push_back("--" + name + "=" + v);
  }
}

void addOption(Rng& r, Layer& l, bool file) {
  switch (r.below(12)) {
    case 0:
    case 1:
    case 2: {
      auto& o = r.pick(numOpts);
      i32 v = (i32)r.range(o.lo, o.hi);
      if (r.chance(3)) v = 65535;
      spell(r, l, o.name, 0, std::to_string(v));
      l.num[o.key] = v;
      break;
    }
    case 3:
    case 4: {
      auto& o = r.pick(strOpts);
      string v = o.key == string("model") ? "" : word(r, !file);
      if (v.empty() || r.chance(30)) v = fileName(r, o.key);
      spell(r, l, o.name, o.sh, v);
      l.str[o.key] = v;
      break;
    }
    case 5: {
      string name = r.pick(fltOpts);
      static const std::pair<const char*, float> vals[] = {
          {"0.5", 0.5f}, {"-1.25", -1.25f}, {"1e3", 1e3f}, {"0", 0.f}, {"7", 7.f}, {"-0.001", -0.001f}};
      auto& v = r.pick(vals);
      spell(r, l, name, 0, v.first);
      l.flt[name] = v.second;
      break;
    }
    case 6: {
      // one kind of output for a layer
      if (l.outType != -1) break;
      static const std::pair<const char*, OutputType> flags[] = {
          {"-j", OutputType::Juman},           {"--juman", OutputType::Juman},
          {"-M", OutputType::Morph},           {"--morph", OutputType::Morph},
          {"-F", OutputType::FullMorph},       {"--full-morph", OutputType::FullMorph},
          {"--dic-subset", OutputType::DicSubset}, {"--segment", OutputType::Segmentation},
          {"-v", OutputType::Version},         {"--version", OutputType::Version},
          {"--model-info", OutputType::ModelInfo}};
      auto& f = r.pick(flags);
      l.args.push_back(f.first);
      l.outType = (int)f.second;
      break;
    }
    case 7: {
      if (l.outType != -1) break;
      i32 n = (i32)r.range(1, 30);
      if (r.chance(10)) n = -1;
      static const char* names[] = {"lattice", "specifics"};
      spell(r, l, r.pick(names), r.chance(50) ? 'L' : 's', std::to_string(n));
      l.outType = (int)OutputType::Lattice;
      l.num["nbest"] = n;
      break;
    }
    case 8: {
      static const std::pair<const char*, OutputType> fmts[] = {
          {"segment", OutputType::Segmentation}, {"juman", OutputType::Juman},
          {"lattice", OutputType::Lattice},      {"morph", OutputType::Morph},
          {"full-morph", OutputType::FullMorph}, {"dic-subset", OutputType::DicSubset},
#if defined(JPP_USE_PROTOBUF)
          {"juman-pb", OutputType::JumanPb},     {"lattice-pb", OutputType::LatticePb},
          {"lattice-dump", OutputType::FullLatticeDump},
#endif
      };
      if (l.outType != -1) break;
      auto& f = r.pick(fmts);
      spell(r, l, "format", 0, f.first);
      l.outType = (int)f.second;
      break;
    }
    case 9: {
      if (r.chance(40)) {
        l.args.push_back("--partial-input");
        l.partial = true;
      } else {
        auto f = fileName(r, "in");
        l.args.push_back(f);
        l.inputs.push_back(f);
      }
      break;
    }
    case 10: {
      i32 a = (i32)r.range(1, 20), b = (i32)r.range(1, 20), c = (i32)r.range(0, 60);
      spell(r, l, "auto-nbest", 0, std::to_string(a) + ":" + std::to_string(b) + ":" + std::to_string(c));
      l.num["autoBase"] = a;
      l.num["autoStep"] = b;
      l.num["autoMax"] = c;
      break;
    }
    case 11: {
      int n = 1 + (int)r.below(4);
      l.rnnFields.clear();
      string v;
      for (int i = 0; i < n; ++i) {
        l.rnnFields.push_back(fileName(r, "f"));
        v += (i ? "," : "") + l.rnnFields.back();
      }
      l.hasFields = true;
      spell(r, l, "rnn-fields", 0, v);
      break;
    }
  }
}

// something that can not be understood
void addBad(Rng& r, Layer& l, bool atEnd) {
  static const char* bad[] = {"--beam=abc",  "--beam=7z",          "--beam=1.5",      "--beam=99999999999",
                              "--global-beam=x", "--right-beam=",  "--right-check=--", "--lattice=one",
                              "-Lx",         "--bogus",            "--bogus=1",       "-Z",
                              "--format=none", "--format=",        "--auto-nbest=5",  "--auto-nbest=1:2",
                              "--auto-nbest=a:b:c", "--auto-nbest=1:2:3:4", "--auto-nbest=1:2:99999999999",
                              "--auto-nbest=", "--rnn-nce-bias=x", "--feature-weight-rnn=1.0.0", "--juman=5",
                              "--beams=4",   "--log-level=high",   "--beam=0x10", "--auto-nbest=-1:2:3"};
  static const char* last[] = {"--beam", "-L", "--model", "-o", "--config", "--auto-nbest"};
  if (atEnd && r.chance(15)) {
    l.args.push_back(r.pick(last));
  } else {
    string b = r.pick(bad);
    // the last of several values counts
    if (!atEnd && l.num.count("autoBase") && b.compare(0, 6, "--auto") == 0) b = "--beam=abc";
    l.args.insert(l.args.begin() + (atEnd ? l.args.size() : 0), b);
  }
  l.bad = true;
}

Layer makeLayer(Rng& r, bool file, int badPercent) {
  Layer l;
  int n = (int)r.below(7);
  if (r.chance(15)) n += (int)r.below(10);
  for (int i = 0; i < n; ++i) addOption(r, l, file);
  if (r.chance(badPercent)) addBad(r, l, r.chance(50));
  return l;
}

void writeConfig(Rng& r, const string& path, const Layer& l) {
  std::ofstream f(path, std::ios::binary);
  static const char* sep[] = {" ", "\n", "\t", "\r\n", "  ", "\n\n", " \n "};
  if (r.chance(20)) f << r.pick(sep);
  for (size_t i = 0; i < l.args.size(); ++i) {
    if (i) f << r.pick(sep);
    f << l.args[i];
  }
  if (r.chance(70)) f << r.pick(sep);
}

struct Expected {
  std::map<string, string> str{{"output", "-"}, {"sep", " "}, {"unk", "<unk>"}, {"rsep", "_"}};
  std::map<string, i32> num{{"beam", 5},   {"nbest", 1}, {"gbeam", 6}, {"rbeam", 5},
                            {"rcheck", 1}, {"autoStep", 0}};
  std::map<string, float> flt;
  vector<string> inputs, rnnFields;
  int outType = (int)OutputType::Juman;
  bool partial = false;
  bool autoBeam = false;

  void apply(const Layer& l) {
    for (auto& x : l.str) str[x.first] = x.second;
    for (auto& x : l.num)
      if (x.first.compare(0, 4, "auto") != 0) num[x.first] = x.second;
    if (l.num.count("autoBase")) {
      num["beam"] = l.num.at("autoBase");
      num["autoStep"] = l.num.at("autoStep");
      num["gbeam"] = l.num.at("autoMax");
      autoBeam = true;
    }
    for (auto& x : l.flt) flt[x.first] = x.second;
    if (!l.inputs.empty()) inputs = l.inputs;
    if (l.hasFields) rnnFields = l.rnnFields;
    if (l.outType != -1) outType = l.outType;
    partial |= l.partial;
  }
  void finish() {
    if (!autoBeam && num["beam"] < num["nbest"]) num["beam"] = num["nbest"];
  }
};

string join(const vector<string>& v) {
  string s;
  for (auto& x : v) s += "[" + x + "]";
  return s;
}

void args(Ctx& c) {
  auto& r = c.rng;
  string dir = c.tmp("c" + std::to_string(c.idx));
  string home = dir + "/home";
  ::mkdir(dir.c_str(), 0755);
  ::mkdir(home.c_str(), 0755);
  ::mkdir((home + "/.config").c_str(), 0755);
  ::mkdir((home + "/.config/jumanpp").c_str(), 0755);
  ::mkdir((dir + "/etc").c_str(), 0755);
  string global = dir + "/" + core::JPP_DEFAULT_CONFIG_DIR;
  ::mkdir(global.c_str(), 0755);
  char cwd[4096];
  if (!::getcwd(cwd, sizeof(cwd)) || ::chdir(dir.c_str()) != 0) {
    c.viol("setup", dir);
    return;
  }

  int badPercent = 12;
  Layer cmd = makeLayer(r, false, badPercent);
  Layer cfg = makeLayer(r, true, badPercent), glob = makeLayer(r, true, badPercent),
        user = makeLayer(r, true, badPercent);
  bool useCfg = r.chance(45), useGlob = r.chance(35), useHome = r.chance(60), hasHome = r.chance(90);
  bool missing = useCfg && r.chance(5);
  string cfgName = r.chance(50) ? "etc/my.config" : (r.chance(50) ? "my.config" : dir + "/etc/my.config");
  if (useCfg) {
    if (!missing) writeConfig(r, cfgName, cfg);
    Layer tmp;
    spell(r, tmp, "config", 'c', cfgName);
    // an option and its value have to stay together
    cmd.args.insert(cmd.args.begin(), tmp.args.begin(), tmp.args.end());
  }
  if (useGlob) writeConfig(r, global + "/jumandic.config", glob);
  if (useHome) writeConfig(r, home + "/.config/jumanpp/jumandic.config", user);
  if (hasHome) {
    ::setenv("HOME", home.c_str(), 1);
  } else {
    ::unsetenv("HOME");
  }

  const Layer* low = nullptr;
  string lowDir;
  if (useCfg) {
    low = &cfg;
    lowDir = cfgName.substr(0, cfgName.rfind('/') + 1);
  } else if (useGlob) {
    low = &glob;
    lowDir = string(core::JPP_DEFAULT_CONFIG_DIR) + "/";
  } else if (useHome && hasHome) {
    low = &user;
    lowDir = home + "/.config/jumanpp/";
  }

  Expected e;
  if (low) e.apply(*low);
  // models relative to the configuration file
  if (low && low->str.count("model") && !low->bad) {
    string m = low->str.at("model");
    bool here = r.chance(25), there = r.chance(60);
    if (here) std::ofstream(m) << "x";
    if (there) std::ofstream(lowDir + m) << "x";
    if (!here && there) e.str["model"] = lowDir + m;
    if (lowDir.empty() && there) e.str["model"] = m;
  }
  e.apply(cmd);
  e.finish();
  bool bad = cmd.bad || missing || (low && low->bad);

  vector<const char*> argv{"jumanpp"};
  for (auto& a : cmd.args) argv.push_back(a.c_str());
  JumanppConf conf;
  Status s = jumandic::parseArgs((int)argv.size(), argv.data(), &conf);
  if (::chdir(cwd) != 0) c.viol("setup", cwd);

  Msg what;
  what << "command line: " << join(cmd.args) << (useCfg ? " config: " + join(cfg.args) : "")
       << (useGlob ? " global: " + join(glob.args) : "") << (useHome ? " home: " + join(user.args) : "")
       << (missing ? " missing" : "") << (hasHome ? "" : " without HOME") << ": ";
  c.stat(bad ? "invalid" : "valid");
  c.stat(low == &cfg ? "explicit" : low == &glob ? "global" : low == &user ? "user" : "no_config");
  c.distinct(string(what));
  if (bool(s) == bad) {
    c.viol(bad ? "invalid-accepted" : "valid-rejected", what << (s ? "" : s.message().str()));
    return;
  }
  if (bad) return;

  auto str = [&](const char* key, const string& got) {
    if (got != e.str[key]) c.viol(string("setting:") + key, Msg() << string(what) << "[" << got << "] instead of [" << e.str[key] << "]");
  };
  auto num = [&](const char* key, i32 got) {
    if (got != e.num[key]) c.viol(string("setting:") + key, Msg() << string(what) << got << " instead of " << e.num[key]);
  };
  auto list = [&](const char* key, const vector<string>& got, const vector<string>& want) {
    if (got != want) c.viol(string("setting:") + key, Msg() << string(what) << join(got) << " instead of " << join(want));
  };
  core::analysis::rnn::RnnInferenceConfig def{};
  auto flt = [&](const char* key, float got, float dflt) {
    float want = e.flt.count(key) ? e.flt[key] : dflt;
    if (std::fabs(got - want) > 1e-6f * std::fabs(want)) c.viol(string("setting:") + key, Msg() << string(what) << got << " instead of " << want);
  };
  str("output", conf.outputFile);
  str("model", conf.modelFile);
  str("rnnmodel", conf.rnnModelFile);
  str("dot", conf.graphvizDir);
  str("sep", conf.segmentSeparator);
  if (!e.str.count("eos")) e.str["eos"] = def.eosSymbol.value();
  str("unk", conf.rnnConfig.unkSymbol);
  str("eos", conf.rnnConfig.eosSymbol);
  str("rsep", conf.rnnConfig.fieldSeparator);
  num("beam", conf.beamSize);
  num("nbest", conf.beamOutput);
  num("gbeam", conf.globalBeam);
  num("rbeam", conf.rightBeam);
  num("rcheck", conf.rightCheck);
  num("autoStep", conf.autoStep);
  flt("rnn-nce-bias", conf.rnnConfig.nceBias, def.nceBias);
  flt("rnn-unk-constant", conf.rnnConfig.unkConstantTerm, def.unkConstantTerm);
  flt("rnn-unk-length", conf.rnnConfig.unkLengthPenalty, def.unkLengthPenalty);
  flt("feature-weight-perceptron", conf.rnnConfig.perceptronWeight, def.perceptronWeight);
  flt("feature-weight-rnn", conf.rnnConfig.rnnWeight, def.rnnWeight);
  list("inputs", conf.inputFiles.value(), e.inputs);
  list("rnn-fields", conf.rnnConfig.rnnFields.value(), e.rnnFields.empty() ? def.rnnFields.value() : e.rnnFields);
  if ((int)conf.outputType.value() != e.outType)
    c.viol("setting:format", what << (int)conf.outputType.value() << " instead of " << e.outType);
  if ((conf.inputType == InputType::PartiallyAnnotated) != e.partial)
    c.viol("setting:partial", what);
  if (conf.autoStep.defined() != e.autoBeam) c.viol("setting:auto", what);
  if (conf.modelFile.isDefault() == (e.str.count("model") != 0 && !e.str["model"].empty())) c.viol("setting:model-default", what);
  // nothing about the recurrent model was said
  bool rnnSaid = false;
  for (auto l : {low, (const Layer*)&cmd})
    if (l) rnnSaid |= l->hasFields || !l->flt.empty() || l->str.count("unk") || l->str.count("eos") || l->str.count("rsep");
  if (conf.rnnConfig.isDefault() == rnnSaid) c.viol("setting:rnn-default", what);
}

}  // namespace

int main(int argc, const char** argv) { return vh::run(argc, argv, {{"args", args}}); }
