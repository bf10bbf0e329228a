// C17: numeric features take exactly their listed values or the steps of their range
#include "fmodel.h"
using namespace hn;

static void numbers(const std::vector<MF> &Ms, const char *Key) {
  Spec S;
  MF R;
  R.N = "root";
  S.F = {R};
  for (auto &M : Ms) {
    S.F.push_back(M);
    S.F.back().Par = 0;
  }
  begin(Key, show(S));
  auto FM = buildModel(S);
  if (!expect(FM != nullptr, "the model cannot be built")) {
    return;
  }
  auto Z = Z3Solver::create();
  for (auto &M : S.F) {
    expect((bool)Z->addFeature(*FM->getFeature(M.N)), "adding " + M.N + " fails");
  }
  std::string Problem;
  auto Got = enumerate(*Z, 4000, &Problem);
  if (!Problem.empty()) {
    fail(Problem);
  }
  compare(Got, validOnes(S));
}
static MF mk(const char *N, std::vector<int64_t> Vs) {
  MF M;
  M.N = N;
  M.Vals = Vs;
  return M;
}
static MF mk(const char *N, int64_t Lo, int64_t Hi, std::string St) {
  MF M;
  M.N = N;
  M.List = false;
  M.Lo = Lo;
  M.Hi = Hi;
  M.Step = St;
  return M;
}
int main(int C, char **V) {
  init(C, V);
  for (auto &L : std::vector<std::vector<int64_t>>{{}, {0}, {5}, {1, 2, 3}, {3, 1}, {2, 2}, {-4, 4}, {100000000000, 7}, {-9000000000000000000, 9000000000000000000}}) {
    numbers({mk("X", L)}, "lists");
  }
  for (const char *St : {"", "x + 1", "x + 3", "x * 2", "2 * x", "x + 1.5", "x * 1.5", "x + 0", "x * 1", "x + 0.5", "10 + x", "x ^ 1"}) {
    for (auto [Lo, Hi] : std::vector<std::pair<int64_t, int64_t>>{{0, 0}, {0, 5}, {1, 1}, {1, 8}, {1, 9}, {-3, 3}, {-8, -1}, {4, 2}, {2, 30}}) {
      if (St[0] && St[2] == '^') {
        continue;
      }
      numbers({mk("X", Lo, Hi, St)}, "ranges");
    }
  }
  while (more()) {
    Spec S = randSpec(0, 2, false, false);
    numbers(std::vector<MF>(S.F.begin() + 1, S.F.end()), "random");
  }
  finish();
}
