// C18: configuration options and configurations
#include "harness.h"
#include "vara/Configuration/Configuration.h"
#include "llvm/Support/JSON.h"
#include <optional>
#include <variant>
using namespace hn;
using namespace vara::feature;

// ---- independent oracle -------------------------------------------------
using OV = std::variant<bool, int64_t, std::string>;

static std::optional<int64_t> intOf(const std::string &S) {
  // [-]digits with an optional 0x / 0b / 0o / 0 radix prefix, 64 bit signed
  size_t I = 0;
  bool Neg = false;
  if (I < S.size() && S[I] == '-') {
    Neg = true;
    ++I;
  }
  unsigned R = 10;
  auto lowc = [](char C) { return C >= 'A' && C <= 'Z' ? C + 32 : C; };
  if (I + 1 < S.size() && S[I] == '0') {
    char C = lowc(S[I + 1]);
    if (C == 'x') {
      R = 16;
      I += 2;
    } else if (C == 'b') {
      R = 2;
      I += 2;
    } else if (S[I + 1] == 'o') {
      R = 8;
      I += 2;
    } else if (S[I + 1] >= '0' && S[I + 1] <= '9') {
      R = 8;
      I += 1;
    }
  }
  if (I >= S.size()) {
    return std::nullopt;
  }
  __int128 V = 0;
  for (; I < S.size(); ++I) {
    char C = lowc(S[I]);
    int D = C >= '0' && C <= '9' ? C - '0' : C >= 'a' && C <= 'z' ? C - 'a' + 10 : 99;
    if (D >= (int)R) {
      return std::nullopt;
    }
    V = V * R + D;
    if (V > ((__int128)1 << 64)) {
      return std::nullopt;
    }
  }
  if (Neg) {
    V = -V;
  }
  if (V < INT64_MIN || V > INT64_MAX) {
    return std::nullopt;
  }
  return (int64_t)V;
}
static OV conv(const std::string &S) {
  std::string L;
  for (char C : S) {
    L += C >= 'A' && C <= 'Z' ? C + 32 : C;
  }
  if (L == "true") {
    return OV{true};
  }
  if (L == "false") {
    return OV{false};
  }
  if (auto I = intOf(S)) {
    return OV{*I};
  }
  return OV{S};
}
static std::string text(const OV &V) {
  if (auto *B = std::get_if<bool>(&V)) {
    return *B ? "true" : "false";
  }
  if (auto *I = std::get_if<int64_t>(&V)) {
    return std::to_string(*I);
  }
  return std::get<std::string>(V);
}
static void checkOption(const ConfigurationOption &O, const std::string &N,
                        const OV &V) {
  expect_eq(O.name().str(), N, "name");
  expect_eq(O.isBool(), V.index() == 0, "isBool");
  expect_eq(O.isInt(), V.index() == 1, "isInt");
  expect_eq(O.isString(), V.index() == 2, "isString");
  expect_eq(O.boolValue().has_value(), V.index() == 0, "boolValue present");
  expect_eq(O.intValue().has_value(), V.index() == 1, "intValue present");
  expect_eq(O.stringValue().has_value(), V.index() == 2, "stringValue present");
  if (V.index() == 0 && O.boolValue()) {
    expect_eq(*O.boolValue(), std::get<0>(V), "boolValue");
  }
  if (V.index() == 1 && O.intValue()) {
    expect_eq(*O.intValue(), std::get<1>(V), "intValue");
  }
  if (V.index() == 2 && O.stringValue()) {
    expect_eq(O.stringValue()->str(), std::get<2>(V), "stringValue");
  }
  expect_eq(O.asString(), text(V), "asString");
  expect_eq(O.toString(), N + ": " + text(V), "toString");
}

static const std::vector<std::string> Values = {
    "true", "false", "True", "TRUE", "tRuE", "FALSE", "False", "fAlse", "truee", "",
    " true", "t", "yes", "0", "1", "-1", "+1", "42", "-0", "007", "010", "08",
    "0x1F", "0X1f", "0b101", "0o17", "0b2", "-0x10", "9223372036854775807",
    "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "18446744073709551615", "99999999999999999999999", "2147483648", "-2147483649",
    "4294967296", "1.5", "1e3", " 1", "1 ", "--1", "-", "0x", "{}", "a b",
    "\"q\"", "back\\slash", "new\nline", "tab\t", "\x01", "\xc3\xbc", "null", "{0}", "nullptr"};
static const std::vector<std::string> Names = {
    "a", "b", "A", "x y", "", "name", "é", "\"", "\\", "{0}", "1", "true", "n\n"};

static std::string rndVal() {
  if (coin(60)) {
    return Values[rnd(Values.size())];
  }
  static const std::string Al = "0123456789-+xXbotTruefalse. abcAF";
  std::string S;
  size_t N = rnd(24);
  if (coin()) {
    for (size_t I = 0; I < N; ++I) {
      S += (char)('0' + rnd(10));
    }
    return coin(30) ? "-" + S : S;
  }
  for (size_t I = 0; I < N; ++I) {
    S += Al[rnd(Al.size())];
  }
  return S;
}

using OM = std::map<std::string, OV>;
static std::string dumpM(const OM &M) {
  std::string S = "{";
  for (auto &E : M) {
    S += E.first + "=" + text(E.second) + ";";
  }
  return S + "}";
}

static void same(Configuration &C, const OM &M, const std::string &What) {
  size_t N = 0;
  std::set<std::string> Seen;
  for (auto &E : C) {
    ++N;
    auto F = M.find(E.first().str());
    if (!expect(F != M.end(), What + ": unexpected option " + E.first().str())) {
      continue;
    }
    Seen.insert(F->first);
    if (expect(E.second != nullptr, What + ": null option")) {
      checkOption(*E.second, F->first, F->second);
    }
  }
  expect_eq(N, M.size(), What + ": number of options");
  expect_eq(Seen.size(), M.size(), What + ": distinct options");
  const Configuration &CC = C;
  size_t K = 0;
  for (auto I = CC.begin(), E = CC.end(); I != E; ++I) {
    ++K;
    auto F = M.find(I->first().str());
    if (expect(F != M.end(), What + ": unexpected option (const)")) {
      checkOption(*I->second, F->first, F->second);
    }
  }
  expect_eq(K, M.size(), What + ": number of options (const)");
  for (auto &N : Names) {
    auto V = C.configurationOptionValue(N);
    auto F = M.find(N);
    expect_eq(V.has_value(), F != M.end(), What + ": option '" + N + "' known");
    if (V && F != M.end()) {
      expect_eq(*V, text(F->second), What + ": value of '" + N + "'");
    }
  }
  size_t K2 = 0;
  for (auto &E : C) {
    (void)E;
    ++K2;
  }
  expect_eq(K2, M.size(), What + ": queries change nothing");
}

static OM retype(const OM &M) {
  OM R;
  for (auto &E : M) {
    R[E.first] = conv(text(E.second));
  }
  return R;
}

static std::string quote(const std::string &S) {
  std::string R = "\"";
  static const char *Hex = "0123456789abcdef";
  for (unsigned char C : S) {
    if (C == '"' || C == '\\') {
      R += '\\';
      R += C;
    } else if (C < 32) {
      R += "\\u00";
      R += Hex[C >> 4];
      R += Hex[C & 15];
    } else {
      R += C;
    }
  }
  return R + "\"";
}

int main(int argc, char **argv) {
  init(argc, argv);
  for (auto &V : Values) {
    begin("option", "name=n value=" + V);
    checkOption(ConfigurationOption("n", V), "n", conv(V));
    checkOption(ConfigurationOption(V, "x"), V, conv("x"));
    // converting the text again keeps the value
    begin("idempotent", V);
    ConfigurationOption O("n", V);
    checkOption(ConfigurationOption("n", O.asString()), "n", conv(text(conv(V))));
    expect_eq(ConfigurationOption("n", O.asString()).asString(), O.asString(),
              "text of the reread value");
  }
  static const std::vector<std::string> Bad = {
      "", "{", "}", "[]", "null", "1", "\"x\"", "{\"a\": 1}", "{\"a\": true}",
      "{\"a\": null}", "{\"a\": {}}", "{\"a\": [\"b\"]}", "{\"a\"}", "{a: \"b\"}",
      "{\"a\": \"b\"", "{\"a\": \"b\",}", "{\"a\": \"b\"} x", "{\"a\": \"b\", \"c\": 1}",
      "{\"c\": 1, \"a\": \"b\"}", "{\"a\": 'b'}", "{\"a\" \"b\"}"};
  for (auto &B : Bad) {
    begin("malformed", B);
    expect(Configuration::createConfigurationFromString(B) == nullptr,
           "malformed configuration accepted");
  }
  std::vector<std::string> Js;
  while (more()) {
    Configuration C;
    OM M;
    std::string Hist;
    size_t N = rnd(10);
    bool Utf = true;
    for (size_t I = 0; I < N; ++I) {
      std::string Nm = Names[rnd(Names.size())], V = rndVal();
      Hist += Nm + "=" + V + ";";
      begin("update", Hist);
      if (coin()) {
        C.setConfigurationOption(Nm, V);
      } else {
        C.addConfigurationOption(std::make_unique<ConfigurationOption>(Nm, V));
      }
      M[Nm] = conv(V);
    }
    begin("update", Hist);
    same(C, M, "after updates");
    begin("json-roundtrip", Hist);
    std::string D = C.dumpToString();
    same(C, M, "after dumping");
    auto R = Configuration::createConfigurationFromString(D);
    if (expect(R != nullptr, "dumped configuration '" + D + "' is rejected")) {
      same(*R, retype(M), "reread");
      expect(R->configurationOptionValue("never") == std::nullopt, "unknown option");
    }
    // independent reading of the dump
    auto J = llvm::json::parse(D);
    if (expect((bool)J, "dump is not JSON")) {
      auto *O = J->getAsObject();
      if (expect(O != nullptr, "dump is not an object")) {
        expect_eq(O->size(), M.size(), "dump: number of members");
        for (auto &E : M) {
          auto S = O->getString(E.first);
          if (expect(S.hasValue(), "dump: member " + E.first + " missing")) {
            expect_eq(S->str(), text(E.second), "dump: member " + E.first);
          }
        }
      }
    } else {
      llvm::consumeError(J.takeError());
    }
    // hand-written JSON
    std::string T = "{";
    bool BadT = false;
    for (auto I = M.begin(); I != M.end(); ++I) {
      T += (I == M.begin() ? "" : ",") + std::string(coin() ? " " : "\n") +
           quote(I->first) + ":" + quote(text(I->second));
    }
    T += "}";
    begin("json-read", T);
    auto P = Configuration::createConfigurationFromString(T);
    if (expect(P != nullptr, "configuration rejected")) {
      same(*P, retype(M), "read");
    }
    if (!M.empty()) {
      static const std::vector<std::string> NS = {"1", "true", "null", "[]", "{}", "1.5"};
      T.pop_back();
      T += ",\"zz\":" + NS[rnd(NS.size())] + "}";
      begin("malformed", T);
      expect(Configuration::createConfigurationFromString(T) == nullptr,
             "non-string value accepted");
    }
  }
  finish();
}
