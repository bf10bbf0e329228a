// C15: the solver enumerates exactly the solutions of what it was given, each once; the factory reports them
#include "fmodel.h"
using namespace hn;

static std::vector<Asg> read(std::vector<std::unique_ptr<vara::feature::Configuration>> Cs, std::string *Problem) {
  std::vector<Asg> R;
  for (auto &C : Cs) {
    if (!C) {
      *Problem += "a configuration is missing; ";
      continue;
    }
    R.push_back(readConfig(*C, Problem));
  }
  return R;
}
static std::unique_ptr<Z3Solver> fill(const Spec &S, FeatureModel &FM) {
  auto Z = Z3Solver::create();
  for (size_t I = 0; I < S.F.size(); ++I) {
    Z->addFeature(*FM.getFeature(S.F[I].N), S.F[I].Par >= 0 && S.Group.count(S.F[I].Par));
  }
  for (auto &R : std::as_const(FM).relationships()) {
    Z->addRelationship(*R);
  }
  for (const auto &C : std::as_const(FM).booleanConstraints()) {
    Z->addConstraint(*C->constraint());
  }
  for (const auto &C : std::as_const(FM).nonBooleanConstraints()) {
    Z->addConstraint(*C->constraint());
  }
  for (const auto &C : std::as_const(FM).mixedConstraints()) {
    Z->addMixedConstraint(*C->constraint(), C->exprKind(), C->req());
  }
  return Z;
}
static void model(const Spec &S, const char *Key) {
  begin(Key, show(S));
  const size_t Before = AllFails;
  auto FM = buildModel(S);
  if (!expect(FM != nullptr, "the model cannot be built")) {
    return;
  }
  auto Want = validOnes(S);
  std::string Problem;
  { // the solver itself: current and next configurations
    auto Z = fill(S, *FM);
    auto H = Z->hasValidConfigurations();
    expect(H && H.extractValue() == !Want.empty(), "hasValidConfigurations is not " + std::to_string(!Want.empty()));
    if (coin()) {
      compare(enumerate(*Z, 4000, &Problem), Want);
      for (int I = 0; I < 2; ++I) {
        auto N = Z->getNextConfiguration();
        expect(!N && N.getError() == SolverErrorCode::UNSAT, "after the last configuration the answer is not UNSAT");
      }
    } else {
      std::vector<Asg> Got;
      bool First = true;
      while (Got.size() < 4000) {
        auto C = First && coin() ? Z->getCurrentConfiguration() : Z->getNextConfiguration();
        First = false;
        if (!C) {
          break;
        }
        auto P = C.extractValue();
        Got.push_back(readConfig(*P, &Problem));
        if (coin(30)) {
          auto Q = Z->getCurrentConfiguration();
          if (expect((bool)Q, "no current configuration after a next one")) {
            auto QP = Q.extractValue();
            expect(readConfig(*QP, &Problem) == Got.back(), "the current configuration is not the last one");
          }
        }
        if (coin(10)) {
          auto H2 = Z->hasValidConfigurations();
          expect(!H2 && H2.getError() == SolverErrorCode::ILLEGAL_STATE, "hasValidConfigurations during enumeration is not ILLEGAL_STATE");
        }
      }
      compare(Got, Want);
    }
  }
  if (AllFails != Before) {
    return; // the factory might never end
  }
  // the factory
  auto All = ConfigurationFactory::getAllConfigs(*FM);
  if (Want.empty()) {
    expect(!All || All.extractValue().empty(), "configurations of a model without any");
  } else if (expect((bool)All, "getAllConfigs fails")) {
    compare(read(All.extractValue(), &Problem), Want);
  }
  expect_eq(ConfigurationFactory::isValid(*FM), !Want.empty(), "isValid");
  if (!Want.empty()) {
    auto Num = ConfigurationFactory::getNumConfigs(*FM);
    expect(Num && Num.extractValue() == Want.size(), "getNumConfigs is not " + std::to_string(Want.size()));
  }
  unsigned N = rnd(Want.size() + 3);
  auto Some = ConfigurationFactory::getNConfigs(*FM, N);
  if (expect((bool)Some, "getNConfigs fails")) {
    auto Got = read(Some.extractValue(), &Problem);
    expect_eq(Got.size(), std::min<size_t>(N, Want.size()), "number of configurations of getNConfigs(" + std::to_string(N) + ")");
    std::sort(Got.begin(), Got.end());
    for (size_t I = 0; I < Got.size(); ++I) {
      expect(!I || !(Got[I] == Got[I - 1]), "getNConfigs gives a configuration twice");
      expect(std::find(Want.begin(), Want.end(), Got[I]) != Want.end(), "getNConfigs gives an invalid configuration");
    }
  }
  std::vector<Asg> Iter;
  for (auto C : ConfigurationFactory::getConfigIterator(*FM)) {
    if (C && Iter.size() < 4000) {
      auto P = C.extractValue();
      Iter.push_back(readConfig(*P, &Problem));
    }
  }
  compare(Iter, Want);
  if (!Problem.empty()) {
    fail(Problem);
  }
}
int main(int C, char **V) {
  init(C, V);
  { // contradictory and empty models
    Spec S;
    MF R, A;
    R.N = "root";
    A.N = "a";
    A.Par = 0;
    A.Opt = true;
    S.F = {R, A};
    model(S, "fixed");
    S.Cons.push_back({hn::mk(CK::CK_AND, mkfeat("a"), mkun(CK::CK_NOT, mkfeat("a")))});
    model(S, "fixed");
    MF X;
    X.N = "X";
    X.Par = 0;
    S.F = {R, X};
    S.Cons.clear();
    model(S, "fixed");
    S.F[1].Vals = {-1, 0, 7};
    model(S, "fixed");
  }
  while (more()) {
    model(randSpec(5, 2, true, true), "random");
  }
  finish();
}
