// C16: features and groups given to the solver admit exactly the selections they allow
#include "fmodel.h"
using namespace hn;

static bool gives(vara::Result<SolverErrorCode> R, int Want) { return Want < 0 ? (bool)R : !R && R.getError() == Want; }
static void model(const Spec &S, const char *Key) {
  begin(Key, show(S));
  auto FM = buildModel(S);
  if (!expect(FM != nullptr, "the model cannot be built")) {
    return;
  }
  auto Z = Z3Solver::create();
  for (size_t I = 0; I < S.F.size(); ++I) {
    auto &M = S.F[I];
    auto *F = FM->getFeature(M.N);
    if (M.Par >= 0 && coin(10)) {
      auto Z2 = Z3Solver::create();
      expect(gives(Z2->addFeature(*F), SolverErrorCode::PARENT_NOT_PRESENT), "adding " + M.N + " without its parent does not fail with PARENT_NOT_PRESENT");
    }
    bool Ok = gives(Z->addFeature(*F, M.Par >= 0 && S.Group.count(M.Par)), -1);
    expect(Ok, "adding " + M.N + " fails");
    if (coin(20)) {
      expect(gives(Z->addFeature(*F), SolverErrorCode::ALREADY_PRESENT), "adding " + M.N + " again does not fail with ALREADY_PRESENT");
    }
    if (coin(10)) {
      expect(gives(Z->addFeature(M.N), SolverErrorCode::ALREADY_PRESENT), "adding the name " + M.N + " again does not fail with ALREADY_PRESENT");
    }
    if (coin(10)) {
      expect(gives(Z->addFeature(M.N, {1, 2}), SolverErrorCode::ALREADY_PRESENT), "adding the number " + M.N + " again does not fail with ALREADY_PRESENT");
    }
  }
  for (auto &R : std::as_const(*FM).relationships()) {
    expect(gives(Z->addRelationship(*R), -1), "adding a group fails");
  }
  std::string Problem;
  auto Got = enumerate(*Z, 4000, &Problem);
  if (!Problem.empty()) {
    fail(Problem);
  }
  compare(Got, validOnes(S));
}
int main(int C, char **V) {
  init(C, V);
  for (int N = 1; N <= 4; ++N) {
    for (int Alt = 0; Alt < 3; ++Alt) {
      for (int Opt = 0; Opt < 4; ++Opt) {
        Spec S;
        MF R, P;
        R.N = "root";
        P.N = "p";
        P.Par = 0;
        P.Opt = Opt & 1;
        S.F = {R, P};
        for (int I = 0; I < N; ++I) {
          MF M;
          M.N = std::string(1, (char)('a' + I));
          M.Par = 1;
          M.Opt = Opt & 2;
          S.F.push_back(M);
        }
        if (Alt < 2) {
          S.Group[1] = Alt;
        }
        model(S, "shapes");
      }
    }
  }
  while (more()) {
    model(randSpec(6, 0, true, false), "random");
  }
  finish();
}
