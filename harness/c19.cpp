// C19: the XML written for a feature model says what the model says
#include "fmodel.h"
#include "vara/Feature/FeatureModelWriter.h"
#include <filesystem>
#include <fstream>
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace hn;
using FSR = FeatureSourceRange;

namespace {
struct Loc {
  std::string Path;
  size_t A, B, C, D;
  bool Nec;
  int Rev; // 0 none, 1 introduced, 2 introduced and removed
  std::string Member;
};
struct Feat {
  std::string N, Out;
  int Par = -1, Kind = 1; // 0 root, 1 binary, 2 values, 3 range
  bool Opt = false;
  std::vector<int64_t> Vals;
  int64_t Lo = 0, Hi = 0;
  std::vector<Loc> Locs;
};
struct Mod {
  std::string Name, Path, Commit;
  std::vector<Feat> F;
  std::map<int, bool> Group;
  struct Con {
    int Kind; // 0 implies, 1 excludes, 2 boolean, 3 non-boolean, 4 mixed
    int A, B;
    bool Neg, All;
    int Form;
  };
  std::vector<Con> Cons;
};
std::string esc(const std::string &S) {
  return "'" + S + "'";
}
std::string el(const std::string &T, const std::string &Text, const std::string &Attr = "") {
  return "<" + T + Attr + ":" + esc(Text) + ">";
}
std::string elk(const std::string &T, std::vector<std::string> Kids, const std::string &Attr = "", bool Sort = false) {
  if (Sort) {
    std::sort(Kids.begin(), Kids.end());
  }
  std::string R = "<" + T + Attr;
  for (auto &K : Kids) {
    R += K;
  }
  return R + ">";
}
std::string att(const std::string &N, const std::string &V) {
  return " " + N + "=" + esc(V);
}
std::string dom(xmlNode *N) {
  std::string T = (const char *)N->name, A;
  for (auto *P = N->properties; P; P = P->next) {
    xmlChar *V = xmlNodeGetContent((xmlNode *)P);
    A += att((const char *)P->name, (const char *)V);
    xmlFree(V);
  }
  std::vector<std::string> Kids;
  for (auto *K = N->children; K; K = K->next) {
    if (K->type == XML_ELEMENT_NODE) {
      Kids.push_back(dom(K));
    }
  }
  static const std::set<std::string> Containers{"vm", "children", "impliedOptions", "excludedOptions", "binaryOptions", "numericOptions", "locations", "booleanConstraints", "nonBooleanConstraints", "mixedConstraints"};
  if (Kids.empty() && !Containers.count(T)) {
    xmlChar *V = xmlNodeGetContent(N);
    std::string R = el(T, (const char *)V, A);
    xmlFree(V);
    return R;
  }
  return elk(T, Kids, A, T == "impliedOptions" || T == "excludedOptions" || T == "binaryOptions" || T == "numericOptions");
}
std::string low(std::string S) {
  return llvm::StringRef(S).lower();
}
std::string conText(const Mod &M, const Mod::Con &C) {
  auto A = M.F[C.A].N, B = M.F[C.B].N;
  switch (C.Kind * 10 + C.Form) {
  case 20: return "(" + A + " | " + B + ")";
  case 21: return "(!" + A + " => " + B + ")";
  case 22: return "(" + A + " => (" + B + " & " + A + "))";
  case 23: return "(" + A + " <=> " + B + ")";
  case 24: return "((" + A + " | " + B + ") => " + B + ")";
  case 25: return "(" + A + " => !" + B + ")";
  case 26: return "(!" + A + " => !" + B + ")";
  default: return "(" + A + " < " + std::to_string(C.Form * 7) + ")";
  }
}
std::unique_ptr<Constraint> leaf(const std::string &N) {
  return std::make_unique<PrimaryFeatureConstraint>(std::make_unique<Feature>(N));
}
std::unique_ptr<Constraint> build(const Mod &M, const Mod::Con &C) {
  auto A = [&] { return leaf(M.F[C.A].N); };
  auto B = [&] { return leaf(M.F[C.B].N); };
  switch (C.Kind * 10 + C.Form) {
  case 20: return std::make_unique<OrConstraint>(A(), B());
  case 21: return std::make_unique<ImpliesConstraint>(std::make_unique<NotConstraint>(A()), B());
  case 22: return std::make_unique<ImpliesConstraint>(A(), std::make_unique<AndConstraint>(B(), A()));
  case 23: return std::make_unique<EquivalenceConstraint>(A(), B());
  case 24: return std::make_unique<ImpliesConstraint>(std::make_unique<OrConstraint>(A(), B()), B());
  case 25: return std::make_unique<ImpliesConstraint>(A(), std::make_unique<NotConstraint>(B()));
  case 26: return std::make_unique<ExcludesConstraint>(std::make_unique<NotConstraint>(A()), B());
  default: break;
  }
  if (C.Kind == 0) {
    return std::make_unique<ImpliesConstraint>(A(), B());
  }
  if (C.Kind == 1) {
    return std::make_unique<ExcludesConstraint>(A(), B());
  }
  return std::make_unique<LessConstraint>(A(), std::make_unique<PrimaryIntegerConstraint>(C.Form * 7));
}
std::string expected(const Mod &M) {
  std::vector<std::string> Bin, Num;
  for (size_t I = 0; I < M.F.size(); ++I) {
    auto &F = M.F[I];
    std::vector<std::string> K{el("name", F.N)};
    if (!F.Out.empty()) {
      K.push_back(el("outputString", F.Out));
    }
    if (F.Par >= 0) {
      K.push_back(el("parent", M.F[F.Par].N));
    }
    std::vector<std::pair<std::string, std::string>> Ch;
    std::vector<std::string> Im, Ex;
    for (size_t J = 0; J < M.F.size(); ++J) {
      if (M.F[J].Par == (int)I) {
        Ch.push_back({low(M.F[J].N), M.F[J].N});
      }
      if (J != I && F.Par >= 0 && M.F[J].Par == F.Par && M.Group.count(F.Par)) {
        Ex.push_back(el("options", M.F[J].N));
      }
    }
    for (auto &C : M.Cons) {
      if (C.A == (int)I && C.Kind == 0) {
        Im.push_back(el("options", M.F[C.B].N));
      }
      if (C.A == (int)I && C.Kind == 1) {
        auto X = el("options", M.F[C.B].N);
        if (std::find(Ex.begin(), Ex.end(), X) == Ex.end()) {
          Ex.push_back(X);
        }
      }
    }
    std::sort(Ch.begin(), Ch.end());
    std::vector<std::string> Cs;
    for (auto &[_, N] : Ch) {
      Cs.push_back(el("options", N));
    }
    if (!Cs.empty()) {
      K.push_back(elk("children", Cs));
    }
    if (!Im.empty()) {
      K.push_back(elk("impliedOptions", Im, "", true));
    }
    if (!Ex.empty()) {
      K.push_back(elk("excludedOptions", Ex, "", true));
    }
    K.push_back(el("optional", F.Opt ? "True" : "False"));
    if (F.Kind == 2) {
      std::string V;
      for (auto X : F.Vals) {
        V += (V.empty() ? "" : ";") + std::to_string(X);
      }
      K.push_back(el("values", V));
    }
    if (F.Kind == 3) {
      K.push_back(el("minValue", std::to_string(F.Lo)));
      K.push_back(el("maxValue", std::to_string(F.Hi)));
    }
    if (!F.Locs.empty()) {
      std::vector<std::string> Ls;
      for (auto &L : F.Locs) {
        std::vector<std::string> S;
        if (L.Rev) {
          std::vector<std::string> R{el("introduced", "abc" + std::to_string(L.A))};
          if (L.Rev == 2) {
            R.push_back(el("removed", "def" + std::to_string(L.B)));
          }
          S.push_back(elk("revisionRange", R));
        }
        S.push_back(el("path", L.Path));
        S.push_back(elk("start", {el("line", std::to_string(L.A)), el("column", std::to_string(L.B))}));
        S.push_back(elk("end", {el("line", std::to_string(L.C)), el("column", std::to_string(L.D))}));
        if (!L.Member.empty()) {
          S.push_back(el("memberOffset", L.Member));
        }
        Ls.push_back(elk("sourceRange", S, att("category", L.Nec ? "necessary" : "inessential")));
      }
      K.push_back(elk("locations", Ls));
    }
    (F.Kind < 2 ? Bin : Num).push_back(elk("configurationOption", K));
  }
  std::vector<std::string> Top{elk("binaryOptions", Bin, "", true), elk("numericOptions", Num, "", true)};
  static const char *Tag[] = {"booleanConstraints", "nonBooleanConstraints", "mixedConstraints"};
  for (int T = 0; T < 3; ++T) {
    std::vector<std::string> K;
    bool Any = false;
    for (auto &C : M.Cons) {
      Any |= C.Kind == T + 2 || (T == 0 && C.Kind < 2);
      if (C.Kind == T + 2) {
        K.push_back(el("constraint", conText(M, C), T < 2 ? "" : att("req", C.All ? "all" : "none") + att("exprKind", C.Neg ? "neg" : "pos")));
      }
    }
    if (Any) {
      Top.push_back(elk(Tag[T], K));
    }
  }
  return elk("vm", Top, att("name", M.Name) + att("root", M.Path) + (M.Commit.empty() ? "" : att("commit", M.Commit)));
}
std::unique_ptr<FeatureModel> make(const Mod &M) {
  FeatureModelBuilder B;
  B.setVmName(M.Name)->setPath(M.Path)->setCommit(M.Commit);
  B.makeRoot(M.F[0].N);
  for (size_t I = 1; I < M.F.size(); ++I) {
    auto &F = M.F[I];
    std::vector<FSR> Ls;
    for (auto &L : F.Locs) {
      std::optional<FSR::FeatureRevisionRange> R;
      if (L.Rev == 1) {
        R = FSR::FeatureRevisionRange("abc" + std::to_string(L.A));
      }
      if (L.Rev == 2) {
        R = FSR::FeatureRevisionRange("abc" + std::to_string(L.A), "def" + std::to_string(L.B));
      }
      std::optional<FSR::FeatureMemberOffset> O;
      if (!L.Member.empty()) {
        O = FSR::FeatureMemberOffset::createFeatureMemberOffset(L.Member);
      }
      Ls.emplace_back(L.Path, FSR::FeatureSourceLocation(L.A, L.B), FSR::FeatureSourceLocation(L.C, L.D), L.Nec ? FSR::Category::necessary : FSR::Category::inessential, O, R);
    }
    if (F.Kind == 1) {
      B.makeFeature<BinaryFeature>(F.N, F.Opt, Ls, F.Out);
    } else if (F.Kind == 2) {
      B.makeFeature<NumericFeature>(F.N, F.Vals, F.Opt, Ls, F.Out);
    } else {
      B.makeFeature<NumericFeature>(F.N, std::make_pair(F.Lo, F.Hi), F.Opt, Ls, F.Out);
    }
    B.addEdge(M.F[F.Par].N, F.N);
  }
  for (auto &[P, Alt] : M.Group) {
    B.emplaceRelationship(Alt ? Relationship::RelationshipKind::RK_ALTERNATIVE : Relationship::RelationshipKind::RK_OR, M.F[P].N);
  }
  using FMo = FeatureModel;
  for (auto &C : M.Cons) {
    auto T = build(M, C);
    if (C.Kind < 3) {
      B.addConstraint(std::make_unique<FMo::BooleanConstraint>(std::move(T)));
    } else if (C.Kind == 3) {
      B.addConstraint(std::make_unique<FMo::NonBooleanConstraint>(std::move(T)));
    } else {
      B.addConstraint(std::make_unique<FMo::MixedConstraint>(std::move(T), C.All ? FMo::MixedConstraint::Req::ALL : FMo::MixedConstraint::Req::NONE, C.Neg ? FMo::MixedConstraint::ExprKind::NEG : FMo::MixedConstraint::ExprKind::POS));
    }
  }
  return B.buildFeatureModel();
}
std::string parsed(const std::string &X) {
  xmlDoc *D = xmlReadMemory(X.data(), X.size(), "m.xml", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
  if (!D) {
    return "not XML";
  }
  std::string R = D->intSubset ? "" : "no DTD ";
  if (D->intSubset) {
    R += std::string((const char *)D->intSubset->name) + " " + (D->intSubset->SystemID ? (const char *)D->intSubset->SystemID : "") + " ";
  }
  R += dom(xmlDocGetRootElement(D));
  xmlFreeDoc(D);
  return R;
}
std::filesystem::path Dir;

void written(const Mod &M, const char *Key) {
  auto Exp = "vm vm.dtd " + expected(M);
  std::string Desc = Exp;
  for (auto &[P, Alt] : M.Group) {
    Desc += std::string(Alt ? " one" : " some") + "-of " + M.F[P].N;
  }
  begin(Key, Desc);
  auto FM = make(M);
  if (!expect(FM != nullptr, "the model cannot be built")) {
    return;
  }
  auto differs = [&](const std::string &Got, const char *How) {
    size_t I = 0;
    while (I < Got.size() && I < Exp.size() && Got[I] == Exp[I]) {
      ++I;
    }
    I = I > 40 ? I - 40 : 0;
    expect(Got == Exp, std::string(How) + ": ..." + (I < Got.size() ? Got.substr(I, 160) : "") + "... is written, ..." + (I < Exp.size() ? Exp.substr(I, 160) : "") + "... is expected");
  };
  FeatureModelXmlWriter W(*FM);
  auto X = W.writeFeatureModel();
  if (!expect(X.has_value(), "nothing is written")) {
    return;
  }
  differs(parsed(*X), "as a string");
  if (Cases % 8 == 0) {
    auto P = (Dir / "m.xml").string();
    expect(W.writeFeatureModel(P) >= 0, "writing to a file fails");
    std::ifstream In(P);
    std::string T((std::istreambuf_iterator<char>(In)), std::istreambuf_iterator<char>());
    differs(parsed(T), "as a file");
  }
}
std::string word() {
  static const char *Odd[] = {"", "", "", "", "&", "<x>", "\"q\"", "'", "\xc3\xa4", " y", "]]>", "a.b", "-1", "%s"};
  std::string R = Odd[rnd(14)];
  return R;
}
Mod anyModel() {
  Mod M;
  M.Name = "m" + word();
  M.Path = coin() ? "" : "p/q" + word();
  M.Commit = coin() ? "" : "c0" + word();
  size_t N = 1 + rnd(8);
  for (size_t I = 0; I < N; ++I) {
    Feat F;
    F.N = std::string(1, (coin() ? 'a' : 'A') + rnd(20)) + std::to_string(I) + word();
    if (I == 0) {
      F.Kind = 0;
    } else {
      F.Kind = coin(50) ? 1 : 2 + rnd(2);
      F.Par = rnd(I);
      F.Opt = coin();
      F.Out = coin() ? "" : "out" + word();
      F.Lo = (int64_t)rnd(1000) - 500;
      F.Hi = F.Lo + rnd(100);
      if (coin(20)) {
        F.Lo = INT64_MIN;
        F.Hi = INT64_MAX;
      }
      for (size_t K = 0, E = 1 + rnd(4); K < E; ++K) {
        F.Vals.push_back(coin(10) ? INT64_MIN + (int64_t)rnd(3) : (int64_t)rnd(100) - 50);
      }
      for (size_t K = 0, E = coin() ? 0 : rnd(3) + 1; K < E; ++K) {
        F.Locs.push_back({"src/f" + word() + ".cpp", rnd(100), rnd(100), rnd(100), rnd(100), coin(), (int)rnd(3), coin() ? "" : coin() ? "C::m" : "A::B::m"});
      }
    }
    M.F.push_back(F);
  }
  for (size_t I = 0; I < N; ++I) {
    int Kids = 0;
    for (auto &F : M.F) {
      Kids += F.Par == (int)I;
    }
    if (Kids > 1 && coin(40)) {
      M.Group[I] = coin();
    }
  }
  for (size_t K = 0, E = rnd(5); K < E; ++K) {
    Mod::Con C{(int)rnd(5), (int)rnd(N), (int)rnd(N), coin(), coin(), 0};
    if (C.Kind == 0 && C.A == C.B) {
      continue;
    }
    C.Form = C.Kind == 2 ? rnd(7) : C.Kind > 2 ? rnd(3) : 0;
    M.Cons.push_back(C);
  }
  return M;
}
} // namespace
int main(int C, char **V) {
  init(C, V);
  char T[] = "/tmp/c19.XXXXXX";
  Dir = mkdtemp(T);
  while (more()) {
    written(anyModel(), "random");
  }
  std::filesystem::remove_all(Dir);
  finish();
}
