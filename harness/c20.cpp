// C20: the feature model read from XML is the one the document describes
#include "fmodel.h"
#include "vara/Feature/FeatureModelParser.h"
#include <filesystem>
using namespace hn;
using FSR = FeatureSourceRange;
using RK = Relationship::RelationshipKind;

namespace {
struct Loc {
  int Cat; // 0 not said, 1 necessary, 2 inessential
  std::string Path, Intro, Removed, Member;
  bool Rev;
  unsigned A, B, C, D;
};
struct Opt {
  std::string N, Out;
  int Par = -1; // index, -1: the root
  bool Num = false, Listed = false, Named = false, Said = false, Optional = false;
  std::string OptText, Values, Step;
  bool Range = false;
  int64_t Lo = 0, Hi = 0;
  std::vector<int> Im, Ex;
  std::vector<Loc> Locs;
};
struct Con {
  int Kind, A, B, Form;
  std::string Req, Expr; // "": not said
};
struct Doc {
  std::string Name, Path, Commit, Root;
  bool HasPath = false, HasCommit = false, HasRoot = false;
  std::vector<int> Order;
  std::vector<Opt> F; // F[0] is the root
  std::vector<Con> Cons;
};
std::string pad() {
  static const char *P[] = {"", "", "", " ", "\n", "\t ", "  \n  "};
  return P[rnd(7)];
}
std::string esc(const std::string &S, bool Attr = false) {
  std::string R;
  if (!Attr && !S.empty() && coin(8) && S.find("]]>") == std::string::npos) {
    return "<![CDATA[" + S + "]]>";
  }
  for (char C : S) {
    if (C == '&') {
      R += "&amp;";
    } else if (C == '<') {
      R += "&lt;";
    } else if (C == '>') {
      R += "&gt;";
    } else if (C == '"') {
      R += "&quot;";
    } else if (C > ' ' && C < 127 && coin(2)) {
      R += "&#" + std::to_string((int)C) + ";";
    } else {
      R += C;
    }
  }
  return R;
}
std::string el(const std::string &T, const std::string &Text, bool Pad = true) {
  std::string C = !Pad ? "" : coin(4) ? "<!-- x -->" : "";
  return pad() + "<" + T + ">" + (Pad ? pad() : "") + esc(Text) + C + (Pad ? pad() : "") + "</" + T + ">" + pad();
}
std::string att(const std::string &N, const std::string &V) {
  return " " + N + "=\"" + pad() + esc(V, true) + pad() + "\"";
}
std::string conText(const Doc &D, const Con &C) {
  auto A = D.F[C.A].N, B = D.F[C.B].N;
  switch (C.Kind ? 6 + C.Kind : C.Form) {
  case 0: return "(" + A + " | " + B + ")";
  case 1: return "(!" + A + " => " + B + ")";
  case 2: return "(" + A + " => (" + B + " & " + A + "))";
  case 3: return "(" + A + " <=> " + B + ")";
  case 4: return "((" + A + " | " + B + ") => " + B + ")";
  case 5: return "(" + A + " => !" + B + ")";
  default: return "(" + A + " < " + std::to_string(C.Form * 7 + 3) + ")";
  }
}
std::string optionXml(const Doc &D, int I) {
  auto &F = D.F[I];
  std::string X = el("name", F.N);
  if (!F.Out.empty()) {
    X += pad() + "<outputString>" + pad() + esc(F.Out) + "</outputString>";
  } else if (coin(20)) {
    X += coin() ? "<outputString/>" : "<outputString> </outputString>";
  }
  if (coin(10)) {
    X += "<prefix>-</prefix>";
  }
  if (F.Named) {
    X += el("parent", D.F[F.Par].N);
  } else if (coin(20)) {
    X += "<parent> </parent>";
  }
  std::vector<int> Ch;
  for (size_t J = 1; J < D.F.size(); ++J) {
    if (D.F[J].Par == I && D.F[J].Listed) {
      Ch.push_back(J);
    }
  }
  auto list = [&](const char *T, std::vector<int> L) {
    std::shuffle(L.begin(), L.end(), Rng);
    if (!L.empty() || coin(20)) {
      X += std::string("<") + T + ">";
      for (int J : L) {
        X += el("options", D.F[J].N);
      }
      X += std::string("</") + T + ">";
    }
  };
  list("children", Ch);
  list("impliedOptions", F.Im);
  list("excludedOptions", F.Ex);
  if (coin(10)) {
    X += "<defaultValue>Selected</defaultValue>";
  }
  if (F.Said) {
    X += el("optional", F.OptText);
  }
  if (!F.Values.empty()) {
    X += el("values", F.Values);
  } else if (F.Range) {
    X += el("minValue", std::to_string(F.Lo)) + el("maxValue", std::to_string(F.Hi));
  }
  if (!F.Step.empty()) {
    X += el("stepFunction", F.Step);
  }
  if (!F.Locs.empty() || coin(10)) {
    X += "<locations>" + pad();
    for (auto &L : F.Locs) {
      X += std::string("<sourceRange") + (L.Cat == 0 ? "" : L.Cat == 1 ? " category=\"necessary\"" : " category=\"inessential\"") + ">" + pad();
      if (L.Rev) {
        X += "<revisionRange>" + el("introduced", L.Intro) + (L.Removed.empty() ? "" : el("removed", L.Removed)) + "</revisionRange>";
      }
      auto at = [&](const char *T, unsigned A, unsigned B) { return std::string("<") + T + ">" + el("line", std::to_string(A)) + el("column", std::to_string(B)) + "</" + T + ">"; };
      X += el("path", L.Path) + at("start", L.A, L.B) + at("end", L.C, L.D);
      if (!L.Member.empty()) {
        X += el("memberOffset", L.Member);
      }
      X += "</sourceRange>" + pad();
    }
    X += "</locations>";
  }
  return "<configurationOption>" + X + "</configurationOption>" + pad();
}
std::string xml(const Doc &D) {
  std::string X = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  if (coin()) {
    X += "<!DOCTYPE vm SYSTEM \"vm.dtd\">\n";
  }
  X += "<vm" + att("name", D.Name) + (D.HasPath ? att("root", D.Path) : "") + (D.HasCommit ? att("commit", D.Commit) : "") + ">" + pad();
  std::string Sec[2];
  for (int I : D.Order) {
    Sec[D.F[I].Num] += optionXml(D, I);
  }
  X += "<binaryOptions>" + Sec[0] + "</binaryOptions>" + pad();
  if (!Sec[1].empty() || coin()) {
    X += "<numericOptions>" + Sec[1] + "</numericOptions>" + pad();
  }
  static const char *Tag[] = {"booleanConstraints", "nonBooleanConstraints", "mixedConstraints"};
  for (int T = 0; T < 3; ++T) {
    std::string S;
    for (auto &C : D.Cons) {
      if (C.Kind == T) {
        S += "<constraint" + (C.Req.empty() ? "" : " req=\"" + C.Req + "\"") + (C.Expr.empty() ? "" : " exprKind=\"" + C.Expr + "\"") + ">" + pad() + esc(conText(D, C)) + pad() + "</constraint>" + pad();
      }
    }
    if (!S.empty() || coin(10)) {
      X += std::string("<") + Tag[T] + ">" + S + "</" + Tag[T] + ">";
    }
  }
  return X + "</vm>\n";
}
std::vector<int64_t> numbers(const std::string &S) {
  std::vector<int64_t> R;
  for (size_t I = 0; I < S.size();) {
    size_t J = I + (S[I] == '-');
    size_t E = J;
    while (E < S.size() && S[E] >= '0' && S[E] <= '9') {
      ++E;
    }
    if (E == J) {
      ++I;
      continue;
    }
    R.push_back(std::stoll(S.substr(I, E - I)));
    I = E;
  }
  return R;
}
std::string q(const std::string &S) { return "'" + S + "'"; }
std::string showVals(const std::vector<int64_t> &V) {
  std::string R = "{";
  for (auto X : V) {
    R += std::to_string(X) + ",";
  }
  return R + "}";
}
std::string showRange(int64_t A, int64_t B) { return "[" + std::to_string(A) + "," + std::to_string(B) + "]"; }
std::string member(const std::string &M) {
  auto P = M.rfind("::");
  return P == std::string::npos || P + 2 == M.size() ? "-" : M;
}
std::vector<std::string> expected(const Doc &D) {
  std::vector<std::string> R;
  R.push_back("model " + q(D.Name) + " in " + q(D.HasPath ? D.Path : std::filesystem::current_path().string()) + " at " + q(D.HasCommit ? D.Commit : ""));
  std::vector<std::string> Fs, Cs[3];
  for (size_t I = 0; I < D.F.size(); ++I) {
    auto &F = D.F[I];
    if (I == 0) {
      Fs.push_back("root " + q(F.N));
    } else {
      std::string S = std::string(F.Num ? "numeric " : "binary ") + q(F.N) + " below " + q(D.F[F.Par].N) + (F.Optional ? " optional" : " mandatory") + " prints " + q(F.Out);
      if (F.Num) {
        auto V = numbers(F.Values);
        S += " values " + (V.empty() ? showRange(F.Lo, F.Hi) : showVals(V)) + " step";
        for (int64_t X : {-7, 0, 2, 9}) {
          S += F.Step.empty() ? " -" : " " + std::to_string(*stepNext(F.Step, X));
        }
      }
      for (auto &L : F.Locs) {
        S += " at " + std::string(L.Cat == 2 ? "inessential " : "necessary ") + q(L.Path) + " " + std::to_string(L.A) + ":" + std::to_string(L.B) + "-" + std::to_string(L.C) + ":" + std::to_string(L.D) + " member " + (L.Member.empty() ? "-" : member(L.Member)) + " revisions " + (L.Rev ? q(L.Intro) + ".." + (L.Removed.empty() ? "-" : q(L.Removed)) : "-");
      }
      Fs.push_back(S);
    }
    if (I || D.HasRoot) {
      for (int J : F.Im) {
        Cs[0].push_back("boolean (" + F.N + " => " + D.F[J].N + ")");
      }
      for (int J : F.Ex) {
        Cs[0].push_back("boolean " + ExcludesConstraint(std::make_unique<PrimaryFeatureConstraint>(std::make_unique<Feature>(F.N)), std::make_unique<PrimaryFeatureConstraint>(std::make_unique<Feature>(D.F[J].N))).toString());
      }
    }
    std::vector<int> Ch;
    for (size_t J = 1; J < D.F.size(); ++J) {
      if (D.F[J].Par == (int)I) {
        Ch.push_back(J);
      }
    }
    bool Alt = Ch.size() > 1;
    for (int A : Ch) {
      Alt &= !D.F[A].Optional;
      for (int B : Ch) {
        Alt &= A == B || std::count(D.F[A].Ex.begin(), D.F[A].Ex.end(), B) > 0;
      }
    }
    if (Alt) {
      Fs.push_back("one-of " + q(F.N));
    }
  }
  for (auto &C : D.Cons) {
    static const char *T[] = {"boolean ", "non-boolean ", "mixed "};
    Cs[C.Kind].push_back(T[C.Kind] + conText(D, C) + (C.Kind == 2 ? std::string(C.Req == "none" ? " none" : " all") + (C.Expr == "neg" ? " neg" : " pos") : ""));
  }
  for (auto *V : {&Fs, &Cs[0], &Cs[1], &Cs[2]}) {
    std::sort(V->begin(), V->end());
    R.insert(R.end(), V->begin(), V->end());
  }
  return R;
}
std::vector<std::string> got(const FeatureModel &FM) {
  std::vector<std::string> R, Fs, Cs[3];
  R.push_back("model " + q(FM.getName().str()) + " in " + q(FM.getPath().string()) + " at " + q(FM.getCommit().str()));
  for (auto *F : FM.features()) {
    if (llvm::isa<RootFeature>(F)) {
      Fs.push_back("root " + q(F->getName().str()));
    } else {
      auto *P = F->getParentFeature();
      auto *N = llvm::dyn_cast<NumericFeature>(F);
      std::string S = std::string(N ? "numeric " : llvm::isa<BinaryFeature>(F) ? "binary " : "odd ") + q(F->getName().str()) + " below " + (P ? q(P->getName().str()) : "-") + (F->isOptional() ? " optional" : " mandatory") + " prints " + q(F->getOutputString().str());
      if (N) {
        auto V = N->getValues();
        S += " values ";
        if (auto *L = std::get_if<std::vector<int64_t>>(&V)) {
          S += showVals(*L);
        } else {
          auto [A, B] = std::get<NumericFeature::ValueRangeType>(V);
          S += showRange(A, B);
        }
        S += " step";
        for (int64_t X : {-7, 0, 2, 9}) {
          S += N->getStepFunction() ? " " + std::to_string(N->getStepFunction()->next(X)) : " -";
        }
      }
      for (auto &L : F->getLocations()) {
        auto *O = L.getMemberOffset();
        auto *V = L.revisionRange();
        S += " at " + std::string(L.getCategory() == FSR::Category::inessential ? "inessential " : "necessary ") + q(L.getPath().string()) + " " + (L.getStart() ? L.getStart()->toString() : "-") + "-" + (L.getEnd() ? L.getEnd()->toString() : "-") + " member " + (O ? O->toString() : "-") + " revisions " + (V ? q(V->introducingCommit().str()) + ".." + (V->hasRemovingCommit() ? q(V->removingCommit().str()) : "-") : "-");
      }
      Fs.push_back(S);
    }
    for (auto *G : F->getChildren<Relationship>(1)) {
      Fs.push_back(std::string(G->getKind() == RK::RK_ALTERNATIVE ? "one-of " : "some-of ") + q(F->getName().str()));
    }
  }
  for (const auto &C : FM.booleanConstraints()) {
    Cs[0].push_back("boolean " + C->constraint()->toString());
  }
  for (const auto &C : FM.nonBooleanConstraints()) {
    Cs[1].push_back("non-boolean " + C->constraint()->toString());
  }
  for (const auto &C : FM.mixedConstraints()) {
    Cs[2].push_back("mixed " + C->constraint()->toString() + (C->req() == FeatureModel::MixedConstraint::Req::NONE ? " none" : " all") + (C->exprKind() == FeatureModel::MixedConstraint::ExprKind::NEG ? " neg" : " pos"));
  }
  for (auto *V : {&Fs, &Cs[0], &Cs[1], &Cs[2]}) {
    std::sort(V->begin(), V->end());
    R.insert(R.end(), V->begin(), V->end());
  }
  return R;
}
void reads(const Doc &D, const char *Key) {
  auto X = xml(D);
  begin(Key, X);
  auto FM = FeatureModelXmlParser(X).buildFeatureModel();
  if (!expect(FM != nullptr, "the document is rejected")) {
    return;
  }
  auto G = got(*FM), E = expected(D);
  for (size_t I = 0; I < std::max(G.size(), E.size()); ++I) {
    auto A = I < G.size() ? G[I] : "nothing", B = I < E.size() ? E[I] : "nothing";
    if (!expect(A == B, A + " is read where " + B + " is expected")) {
      break;
    }
  }
}
void rejects(const std::string &X, const char *Key) {
  begin(Key, X);
  auto FM = FeatureModelXmlParser(X).buildFeatureModel();
  expect(FM == nullptr, "the document is accepted");
}
std::string word() {
  static const char *Odd[] = {"", "", "", "", "&", "<x>", "\"q\"", "'", "\xc3\xa4", " y", "]]>", "a.b", "-1", "%s"};
  return Odd[rnd(14)];
}
Doc anyDoc() {
  Doc D;
  D.Name = "m" + word();
  D.HasPath = coin(70);
  D.Path = coin(20) ? "" : "/p/q" + word();
  D.HasCommit = coin(60);
  D.Commit = coin(20) ? "" : "c0" + word();
  D.HasRoot = coin(70);
  size_t N = 1 + rnd(8);
  std::set<int> Plain;
  for (size_t I = 0; I < N; ++I) {
    Opt F;
    if (I == 0) {
      F.N = D.HasRoot && coin() ? "base" : "root";
      Plain.insert(0);
    } else {
      auto W = coin(60) ? "" : word();
      F.N = std::string(1, (coin() ? 'a' : 'A') + rnd(20)) + std::to_string(I) + W;
      if (W.empty()) {
        Plain.insert(I);
      }
      F.Num = coin(40);
      F.Par = rnd(I);
      F.Said = coin(70);
      static const char *No[] = {"False", "false", "true", "TRUE", "", "1", "Truee"};
      F.Optional = F.Said && coin(40);
      F.OptText = F.Optional ? "True" : No[rnd(7)];
      F.Out = coin() ? "" : "out" + word() + (coin(20) ? "  " : "");
      int How = rnd(4);
      // the implicit root cannot list its children
      F.Listed = (How & 1) && (F.Par || D.HasRoot);
      F.Named = (How & 2) || (F.Par && !F.Listed);
      if (F.Num || coin(5)) {
        F.Range = coin(80);
        if (F.Range) {
          F.Lo = (int64_t)rnd(1000) - 500;
          F.Hi = (int64_t)rnd(1000) - 500;
          if (coin(20)) {
            F.Lo = -INT64_MAX;
            F.Hi = INT64_MAX;
          }
        }
        if (coin()) {
          F.Range = false;
          F.Lo = F.Hi = 0;
          static const char *Sep[] = {";", ",", " ", "; ", "-", "x", "--", "\n", " . "};
          F.Values = coin(20) ? "v" : "";
          for (size_t K = 0, E = coin(6) ? 0 : 1 + rnd(5); K < E; ++K) {
            F.Values += (coin(30) ? "-" : "") + std::to_string(coin(10) ? INT64_MAX - (int64_t)rnd(3) : (int64_t)rnd(100));
            F.Values += K + 1 < E || coin(20) ? Sep[rnd(9)] : "";
          }
          while (!F.Values.empty() && strchr(" \n", F.Values.back())) {
            F.Values.pop_back();
          }
          if (F.Values.empty()) {
            F.Values = "?";
          }
        }
        static const char *St[] = {"", "", "x + 3", "x * 2", "2 + x", "2 * x"};
        F.Step = F.Num ? St[rnd(6)] : "";
      }
      static const char *Ms[] = {"", "", "C::m", "A::B::m", "m", "A::", "::m"};
      for (size_t K = 0, E = coin() ? 0 : rnd(3) + 1; K < E; ++K) {
        Loc L{(int)rnd(3), "src/f" + word() + ".cpp", "abc" + std::to_string(rnd(90)), coin() ? "" : "def", Ms[rnd(7)], coin(), (unsigned)rnd(100), (unsigned)rnd(100), (unsigned)rnd(100), (unsigned)rnd(100)};
        F.Locs.push_back(L);
      }
    }
    D.F.push_back(F);
  }
  for (size_t I = D.HasRoot ? 0 : 1; I < N; ++I) {
    for (size_t J = 0; J < N; ++J) {
      bool Sib = I && J && D.F[I].Par == D.F[J].Par;
      if (I != J && coin(8)) {
        D.F[I].Im.push_back(J);
      }
      if (I != J && coin(Sib ? 30 : 5)) {
        D.F[I].Ex.push_back(J);
      }
    }
  }
  if (coin(60)) { // mutually exclusive siblings, sometimes incompletely
    int P = rnd(N);
    for (size_t I = 1; I < N; ++I) {
      for (size_t J = 1; J < N; ++J) {
        if (I != J && D.F[I].Par == P && D.F[J].Par == P) {
          if (coin(95) && !std::count(D.F[I].Ex.begin(), D.F[I].Ex.end(), J)) {
            D.F[I].Ex.push_back(J);
          }
          if (!coin(5)) {
            D.F[I].Optional = false;
            D.F[I].OptText = "False";
          }
        }
      }
    }
  }
  for (size_t I = D.HasRoot ? 0 : 1; I < N; ++I) {
    D.Order.push_back(I);
  }
  std::shuffle(D.Order.begin(), D.Order.end(), Rng);
  std::vector<int> Ps(Plain.begin(), Plain.end());
  for (size_t K = 0, E = rnd(6); K < E; ++K) {
    static const char *Rq[] = {"", "all", "none"}, *Ek[] = {"", "pos", "neg"};
    Con C{(int)rnd(3), Ps[rnd(Ps.size())], Ps[rnd(Ps.size())], 0, Rq[rnd(3)], Ek[rnd(3)]};
    C.Form = C.Kind ? rnd(5) : rnd(6);
    D.Cons.push_back(C);
  }
  return D;
}
std::string opt(const std::string &N, const std::string &Rest = "") {
  return "<configurationOption><name>" + N + "</name>" + Rest + "</configurationOption>";
}
std::string vm(const std::string &Bin, const std::string &Num = "", const std::string &Cons = "") {
  return "<vm name=\"m\"><binaryOptions>" + Bin + "</binaryOptions><numericOptions>" + Num + "</numericOptions>" + Cons + "</vm>";
}
std::string par(const std::string &P) { return "<parent>" + P + "</parent>"; }
std::string kids(std::vector<std::string> L) {
  std::string R = "<children>";
  for (auto &K : L) {
    R += "<options>" + K + "</options>";
  }
  return R + "</children>";
}
void bad() {
  std::string N = std::string(1, 'a' + rnd(20)) + std::to_string(rnd(50)), A = "p" + N, B = "q" + N;
  auto base = [&](std::string X, const std::string &KA = "", const std::string &KB = "", bool Num = false) {
    std::vector<std::string> Os{opt("root"), opt(A, par("root") + KA), opt(B, par("root") + KB)};
    if (!Num) {
      Os.push_back(X);
      X = "";
    }
    std::shuffle(Os.begin(), Os.end(), Rng);
    std::string R;
    for (auto &O : Os) {
      R += O;
    }
    return vm(R, X);
  };
  bool Num = coin();
  switch (rnd(7)) {
  case 0: return rejects(base(opt(N, par(A)), "", kids({N}), Num), "two-parents");
  case 1: return rejects(base(opt(N), kids({N}), kids({"root2", N}), Num), "two-lists");
  case 2: {
    static const char *T[] = {"", "(", "a1 a1", "a1 &amp;", "=> a1", "(a1 | a1", "a1 < "};
    static const char *S[] = {"booleanConstraints", "nonBooleanConstraints", "mixedConstraints"};
    std::string Tag = S[rnd(3)], X = T[rnd(6)];
    std::string Ok = "<constraint>(a1 | a1)</constraint>";
    return rejects(vm(opt("root") + opt("a1", par("root")), "", "<" + Tag + ">" + (coin() ? Ok : "") + "<constraint>" + X + "</constraint>" + (coin() ? Ok : "") + "</" + Tag + ">"), "constraint-text");
  }
  case 3: {
    static const char *T[] = {"<vm><binaryOptions/></vm>", "<vm name=\"m\"/>", "<vm name=\"m\"><numericOptions/></vm>", "<vm name=\"m\"><binaryOptions/><foo/></vm>",
                              "<vm name=\"m\"><binaryOptions><configurationOption/></binaryOptions></vm>", "<other/>", "<vm name=\"m\" x=\"1\"><binaryOptions/></vm>",
                              "<vm name=\"m\"><binaryOptions><configurationOption><parent>root</parent><name>a</name></configurationOption></binaryOptions></vm>",
                              "<vm name=\"m\"><binaryOptions><configurationOption><name>a</name><name>b</name></configurationOption></binaryOptions></vm>",
                              "<vm name=\"m\"><numericOptions/><binaryOptions/></vm>"};
    return rejects(T[rnd(10)], "structure");
  }
  case 4: {
    static const char *T[] = {"", "x", "<vm", "<vm name=\"m\">", "<vm name=\"m\"><binaryOptions></vm>", "<vm name=m><binaryOptions/></vm>", "<vm name=\"m\"><binaryOptions/></vm><vm/>"};
    return rejects(T[rnd(7)], "not-xml");
  }
  case 5: {
    static const char *T[] = {"<sourceRange><path>a</path></sourceRange>", "<sourceRange category=\"odd\"><path>a</path><start><line>1</line><column>1</column></start><end><line>1</line><column>1</column></end></sourceRange>",
                              "<sourceRange><start><line>1</line><column>1</column></start><path>a</path><end><line>1</line><column>1</column></end></sourceRange>"};
    return rejects(base(opt(N, par(A) + "<locations>" + T[rnd(3)] + "</locations>"), "", "", Num), "location-structure");
  }
  default: {
    auto X = base(opt(N, par(A)), kids({N}), "", Num); // both ways of naming the same parent
    begin("one-parent", X);
    auto FM = FeatureModelXmlParser(X).buildFeatureModel();
    expect(FM && FM->getFeature(N) && FM->getFeature(N)->getParentFeature() == FM->getFeature(A), "the feature is not below the one parent that is named");
  }
  }
}
} // namespace
int main(int C, char **V) {
  init(C, V);
  while (more()) {
    reads(anyDoc(), "random");
    bad();
  }
  finish();
}
