// C14: constraints given to the solver admit exactly the satisfying assignments
#include "solver.h"
using namespace hn;

struct Item {
  TP T;
  bool Mixed, Neg, All;
};
static std::vector<std::unique_ptr<Feature>> Kept;
static std::unique_ptr<Constraint> leaf(const std::string &N) {
  std::unique_ptr<Feature> F;
  if (isnum(N)) {
    F = std::make_unique<NumericFeature>(N, std::pair<int64_t, int64_t>(0, 1));
  } else if (coin(20)) {
    F = std::make_unique<RootFeature>(N);
  } else {
    F = std::make_unique<BinaryFeature>(N, coin());
  }
  if (coin()) {
    return std::make_unique<PrimaryFeatureConstraint>(std::move(F));
  }
  Kept.push_back(std::move(F));
  return std::make_unique<PrimaryFeatureConstraint>(Kept.back().get());
}
static std::string text(const Item &X) {
  return (X.Mixed ? std::string("mixed ") + (X.Neg ? "neg " : "pos ") + (X.All ? "all " : "none ") : std::string()) + show(X.T);
}
static bool holds(const Item &X, const Asg &A) {
  bool V = evalB(X.T, A, X.Mixed) != (X.Mixed && X.Neg);
  return V || (X.Mixed && X.All && someOff(X.T, A));
}
static void check(const std::vector<Item> &Items, const char *Key, std::map<std::string, std::vector<int64_t>> Vars) {
  std::string D;
  for (auto &X : Items) {
    D += text(X) + "; ";
    std::set<std::string> N;
    names(X.T, N);
    for (auto &Y : N) {
      if (!Vars.count(Y)) {
        Vars[Y] = isnum(Y) ? std::vector<int64_t>{0, 1, 2, 5} : std::vector<int64_t>{0, 1};
      }
    }
  }
  std::vector<Asg> Want;
  try {
    for (auto &A : assignments(Vars)) {
      bool Ok = true;
      for (auto &X : Items) {
        Ok &= holds(X, A);
      }
      if (Ok) {
        Want.push_back(A);
      }
    }
  } catch (Undef) {
    return;
  }
  begin(Key, D);
  Kept.clear();
  auto S = Z3Solver::create();
  for (auto &P : Vars) {
    if (isnum(P.first)) {
      S->addFeature(P.first, P.second);
    } else {
      S->addFeature(P.first);
    }
  }
  std::string Problem;
  for (auto &X : Items) {
    auto C = make(X.T, leaf);
    using MC = FeatureModel::MixedConstraint;
    auto R = X.Mixed ? S->addMixedConstraint(*C, X.Neg ? MC::ExprKind::NEG : MC::ExprKind::POS, X.All ? MC::Req::ALL : MC::Req::NONE)
                     : S->addConstraint(*C);
    if (!R) {
      Problem += "adding " + text(X) + " fails; ";
    }
  }
  auto Got = enumerate(*S, 2000, &Problem);
  if (!Problem.empty()) {
    fail(Problem);
  }
  compare(Got, Want);
}

int main(int C, char **V) {
  init(C, V);
  TP A = mkfeat("a"), B = mkfeat("b"), X = mkfeat("X"), Y = mkfeat("Y");
  for (auto &O : binops()) {
    for (bool M : {false, true}) {
      for (int Neg = 0; Neg < (M ? 2 : 1); ++Neg) {
        for (int All = 0; All < (M ? 2 : 1); ++All) {
          auto go = [&](TP T) {
            if (sortOf(T, M) == 1) {
              check({{T, M, Neg == 1, All == 1}}, "operators", {});
            }
          };
          for (auto &L : {A, X, mkun(CK::CK_NOT, A)}) {
            for (auto &R : {B, Y, mkun(CK::CK_NOT, B), mkint(2)}) {
              go(mk(O.K, L, R));
              for (auto K : {CK::CK_EQUAL, CK::CK_LESS, CK::CK_GREATER_EQUAL}) {
                go(mk(K, mk(O.K, L, R), mkint(3)));
              }
              go(mk(CK::CK_LESS, mk(O.K, L, R), mkun(CK::CK_NEG, X)));
            }
          }
        }
      }
    }
  }
  std::vector<std::string> Bs = {"a", "b", "c"}, Ns = {"X", "Y"};
  while (more()) {
    std::vector<Item> Is;
    for (size_t N = 1 + rnd(3); N; --N) {
      bool M = coin(40);
      Is.push_back({gen(1, 1 + rnd(3), M, Bs, Ns), M, M && coin(), M && coin()});
    }
    check(Is, "random", coin() ? std::map<std::string, std::vector<int64_t>>{{"d", {0, 1}}} : std::map<std::string, std::vector<int64_t>>{});
  }
  finish();
}
