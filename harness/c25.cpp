// C25: the solver built for a whole feature model admits exactly the selections the model allows
#include "fmodel.h"
#include "vara/Solver/SolverFactory.h"
using namespace hn;

static void model(const Spec &S, const char *Key) {
  begin(Key, show(S));
  auto FM = buildModel(S);
  if (!expect(FM != nullptr, "the model cannot be built")) {
    return;
  }
  auto Sol = SolverFactory::initializeSolver(*FM, SolverType::Z3);
  if (!expect(Sol != nullptr, "there is no solver")) {
    return;
  }
  std::string Problem;
  compare(enumerate(*Sol, 4000, &Problem), validOnes(S));
  if (!Problem.empty()) {
    fail(Problem);
  }
}
static Spec shape(std::vector<std::tuple<const char *, int, bool>> Fs, std::map<int, bool> Groups) {
  Spec S;
  for (auto &[N, P, Opt] : Fs) {
    MF M;
    M.N = N;
    M.Par = P;
    M.Opt = Opt;
    S.F.push_back(M);
  }
  for (auto &[P, Alt] : Groups) {
    S.Group[P] = Alt;
  }
  return S;
}
int main(int C, char **V) {
  init(C, V);
  for (int G = 0; G < 2; ++G) { // groups with optional and mandatory members, features below members, nested groups
    for (int O = 0; O < 8; ++O) {
      model(shape({{"root", -1, false}, {"b", 0, (O & 1) != 0}, {"c", 0, (O & 2) != 0}, {"d", 0, (O & 4) != 0}}, {{0, G == 0}}), "groups");
      model(shape({{"root", -1, false}, {"b", 0, (O & 1) != 0}, {"c", 1, (O & 2) != 0}, {"d", 1, (O & 4) != 0}, {"e", 2, false}, {"f", 2, true}}, {{1, G == 0}}), "groups");
      model(shape({{"root", -1, false}, {"b", 0, (O & 1) != 0}, {"c", 0, (O & 2) != 0}, {"d", 1, (O & 4) != 0}, {"e", 1, false}}, {{0, G == 0}, {1, G == 1}}), "groups");
    }
  }
  while (more()) {
    model(randSpec(6, 2, true, true), "random");
  }
  finish();
}
