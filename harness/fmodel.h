// Random feature models described by data, their valid configurations, and the real objects (C15 to C17, C25).
#pragma once
#include "solver.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/StepFunctionParser.h"
#include "vara/Solver/ConfigurationFactory.h"

namespace hn {
struct MF {
  std::string N;
  int Par = -1; // index of the parent feature, -1 for the root
  bool Opt = false;
  bool List = true; // numeric: values listed, otherwise a range
  std::vector<int64_t> Vals;
  int64_t Lo = 0, Hi = 0;
  std::string Step; // empty: none
};
struct Spec {
  std::vector<MF> F;                 // F[0] is the root; parents come first
  std::map<int, bool> Group;         // parent -> is its group alternative (else or)
  struct Con {
    TP T;
    bool Mixed = false, Neg = false, All = false;
  };
  std::vector<Con> Cons;
};
inline std::optional<int64_t> stepNext(const std::string &S, int64_t X) {
  if (S.empty()) {
    return X + 1;
  }
  // "x + 3", "x * 2", "2 + x", "2 * x"
  std::istringstream I(S);
  std::string A, O, B;
  I >> A >> O >> B;
  double C = std::stod(A == "x" ? B : A);
  double R = O == "+" ? X + C : X * C;
  return (int64_t)R;
}
inline std::vector<int64_t> valuesOf(const MF &M) {
  if (M.List) {
    return M.Vals;
  }
  std::vector<int64_t> R;
  for (int64_t X = M.Lo; X <= M.Hi;) {
    R.push_back(X);
    auto Y = stepNext(M.Step, X);
    if (*Y <= X) {
      break;
    }
    X = *Y;
  }
  return R;
}
inline bool num(const MF &M) { return isnum(M.N); }
inline std::string show(const Spec &S) {
  std::string R;
  for (size_t I = 0; I < S.F.size(); ++I) {
    auto &M = S.F[I];
    R += M.N + (M.Par >= 0 ? "<" + S.F[M.Par].N : "") + (M.Opt ? "?" : "");
    if (num(M)) {
      if (M.List) {
        R += "{";
        for (auto V : M.Vals) {
          R += std::to_string(V) + ",";
        }
        R += "}";
      } else {
        R += "[" + std::to_string(M.Lo) + ".." + std::to_string(M.Hi) + "|" + M.Step + "]";
      }
    }
    if (S.Group.count(I)) {
      R += S.Group.at(I) ? "(one)" : "(some)";
    }
    R += " ";
  }
  for (auto &C : S.Cons) {
    R += "; " + std::string(C.Mixed ? "mixed " : "") + (C.Neg ? "neg " : "") + (C.All ? "all " : "") + show(C.T);
  }
  return R;
}
inline bool valid(const Spec &S, const Asg &A) {
  auto on = [&](int I) { return A.B.at(S.F[I].N); };
  for (size_t I = 0; I < S.F.size(); ++I) {
    auto &M = S.F[I];
    if (num(M)) {
      auto V = valuesOf(M);
      if (std::find(V.begin(), V.end(), A.I.at(M.N)) == V.end()) {
        return false;
      }
    } else if (M.Par < 0) {
      if (!on(I)) {
        return false;
      }
    } else {
      if (on(I) && !on(M.Par)) {
        return false;
      }
      if (on(M.Par) && !M.Opt && !S.Group.count(M.Par) && !on(I)) {
        return false;
      }
    }
  }
  for (auto &[P, Alt] : S.Group) {
    if (on(P)) {
      int N = 0;
      for (size_t I = 0; I < S.F.size(); ++I) {
        N += S.F[I].Par == P && on(I);
      }
      if (N == 0 || (Alt && N > 1)) {
        return false;
      }
    }
  }
  for (auto &C : S.Cons) {
    bool V = evalB(C.T, A, C.Mixed) != C.Neg;
    if (!(V || (C.Mixed && C.All && someOff(C.T, A)))) {
      return false;
    }
  }
  return true;
}
inline std::vector<Asg> validOnes(const Spec &S) {
  std::map<std::string, std::vector<int64_t>> Vars;
  for (auto &M : S.F) {
    Vars[M.N] = num(M) ? valuesOf(M) : std::vector<int64_t>{0, 1};
  }
  std::vector<Asg> R;
  for (auto &A : assignments(Vars)) {
    if (valid(S, A)) {
      R.push_back(A);
    }
  }
  return R;
}
inline Spec randSpec(size_t MaxF, size_t MaxN, bool Groups, bool Cons) {
  Spec S;
  static const char *Bn[] = {"b", "c", "d", "e", "f", "g", "h"};
  static const char *Nn[] = {"X", "Y"};
  MF Root;
  Root.N = "root";
  S.F.push_back(Root);
  size_t NB = rnd(MaxF + 1), NN = rnd(MaxN + 1);
  for (size_t I = 0; I < NB; ++I) {
    MF M;
    M.N = Bn[I];
    M.Par = rnd(S.F.size());
    M.Opt = coin();
    S.F.push_back(M);
  }
  std::map<int, int> Kids;
  for (auto &M : S.F) {
    ++Kids[M.Par];
  }
  if (Groups) {
    for (size_t I = 0; I < S.F.size(); ++I) {
      if (Kids[I] && coin(50)) {
        S.Group[I] = coin();
      }
    }
  }
  for (size_t I = 0; I < NN; ++I) {
    MF M;
    M.N = Nn[I];
    for (size_t K = 0; K < 20; ++K) {
      M.Par = rnd(NB + 1);
      if (!S.Group.count(M.Par)) {
        break;
      }
    }
    if (S.Group.count(M.Par)) {
      continue;
    }
    M.Opt = coin();
    M.List = coin();
    if (M.List) {
      for (size_t N = rnd(4); N; --N) {
        M.Vals.push_back((int64_t)rnd(12) - 4);
      }
    } else {
      M.Lo = (int64_t)rnd(8) - 3;
      M.Hi = M.Lo + (int64_t)rnd(8) - 1;
      static const char *St[] = {"", "x + 1", "x + 2", "x * 2", "2 * x", "3 + x", "x * 1", "x + 0", "x + 1.5", "x * 1.5"};
      M.Step = St[rnd(10)];
    }
    S.F.push_back(M);
  }
  if (Cons) {
    std::vector<std::string> Bs, Ns;
    for (auto &M : S.F) {
      (num(M) ? Ns : Bs).push_back(M.N);
    }
    for (size_t N = rnd(3); N; --N) {
      bool Mx = coin(30);
      S.Cons.push_back({gen(1, 1 + rnd(2), Mx, Bs, Ns, false), Mx, Mx && coin(), Mx && coin()});
    }
  }
  if (S.Cons.empty() && coin(25)) { // numbers that need more than 32 bits
    for (auto &M : S.F) {
      if (num(M) && (M.List || M.Step.empty())) {
        int64_t Off = 3000000000 * (1 + (int64_t)rnd(3)) * (coin() ? 1 : -1);
        for (auto &V : M.Vals) {
          V += Off;
        }
        if (!M.List) {
          M.Lo += Off;
          M.Hi += Off;
        }
      }
    }
  }
  return S;
}
inline std::unique_ptr<StepFunction> mkStep(const std::string &S) {
  return S.empty() ? nullptr : StepFunctionParser(S).buildStepFunction();
}
// the real model
inline std::unique_ptr<FeatureModel> buildModel(const Spec &S) {
  FeatureModelBuilder B;
  B.makeRoot(S.F[0].N);
  for (size_t I = 1; I < S.F.size(); ++I) {
    auto &M = S.F[I];
    if (!num(M)) {
      B.makeFeature<BinaryFeature>(M.N, M.Opt);
    } else if (M.List) {
      B.makeFeature<NumericFeature>(M.N, M.Vals, M.Opt);
    } else {
      B.makeFeature<NumericFeature>(M.N, std::make_pair(M.Lo, M.Hi), M.Opt, std::vector<FeatureSourceRange>(), "", mkStep(M.Step));
    }
    B.addEdge(S.F[M.Par].N, M.N);
  }
  for (auto &[P, Alt] : S.Group) {
    B.emplaceRelationship(Alt ? Relationship::RelationshipKind::RK_ALTERNATIVE : Relationship::RelationshipKind::RK_OR, S.F[P].N);
  }
  auto leaf = [](const std::string &N) -> std::unique_ptr<Constraint> {
    return std::make_unique<PrimaryFeatureConstraint>(std::make_unique<Feature>(N));
  };
  for (auto &C : S.Cons) {
    using FMo = FeatureModel;
    auto T = make(C.T, leaf);
    if (C.Mixed) {
      B.addConstraint(std::make_unique<FMo::MixedConstraint>(std::move(T), C.All ? FMo::MixedConstraint::Req::ALL : FMo::MixedConstraint::Req::NONE,
                                                             C.Neg ? FMo::MixedConstraint::ExprKind::NEG : FMo::MixedConstraint::ExprKind::POS));
    } else {
      std::set<std::string> Ns;
      names(C.T, Ns);
      bool AnyNum = std::any_of(Ns.begin(), Ns.end(), isnum);
      if (AnyNum) {
        B.addConstraint(std::make_unique<FMo::NonBooleanConstraint>(std::move(T)));
      } else {
        B.addConstraint(std::make_unique<FMo::BooleanConstraint>(std::move(T)));
      }
    }
  }
  return B.buildFeatureModel();
}
} // namespace hn
