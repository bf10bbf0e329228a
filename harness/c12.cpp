// C12: iterating over a model against a depth-first walk written down independently
#define OPEN_ACCESS
#include "fm.h"
using namespace hn;

static std::string low(const std::string &S) {
  std::string R = S;
  for (auto &C : R) {
    C = std::tolower((unsigned char)C);
  }
  return R;
}

static Node above(const RefModel &R, Node F) {
  Node P = R.M.at(F).Par;
  return P && !R.M.at(P).IsF ? R.M.at(P).Par : P;
}

static void check(FeatureModel &FM, const RefModel &R) {
  std::map<Node, std::vector<Node>> Below;
  bool Ties = false;
  std::string D;
  for (auto &[P, X] : R.M) {
    if (X.IsF) {
      D += " " + X.Name + "<-" + (X.Par ? nname(R, X.Par) : "-");
      if (P != R.Root) {
        Below[above(R, P)].push_back(P);
      }
    }
  }
  begin("tree:" + std::to_string(R.M.size()), D);
  for (auto &[P, K] : Below) {
    std::sort(K.begin(), K.end(), [&](Node A, Node B) { return low(R.M.at(A).Name) < low(R.M.at(B).Name); });
    for (size_t I = 1; I < K.size(); ++I) {
      Ties |= low(R.M.at(K[I]).Name) == low(R.M.at(K[I - 1]).Name);
    }
  }
  std::vector<Node> Want, Got;
  std::function<void(Node)> Walk = [&](Node P) {
    Want.push_back(P);
    for (Node K : Below[P]) {
      Walk(K);
    }
  };
  if (R.Root) {
    Walk(R.Root);
  }
  for (auto *F : FM.features()) {
    Got.push_back(F);
    if (!expect(Got.size() <= Want.size(), "the iteration goes on after all features")) {
      return;
    }
  }
  auto Text = [&](const std::vector<Node> &V) {
    std::string S;
    for (Node N : V) {
      S += nname(R, N) + " ";
    }
    return S;
  };
  if (!Ties) {
    expect_eq(Text(Got), Text(Want), "order of the features");
  }
  std::set<Node> Seen;
  for (size_t I = 0; I < Got.size(); ++I) {
    expect(Seen.insert(Got[I]).second, nname(R, Got[I]) + " comes twice");
    expect(I == 0 ? Got[0] == R.Root : Seen.count(above(R, Got[I])) == 1, nname(R, Got[I]) + " comes before the feature above it");
  }
  expect_eq(Got.size(), Want.size(), "number of features");
  // the same through every other way of going forward
  const FeatureModel &CM = FM;
  size_t N = 0;
  auto J = CM.begin();
  for (auto I = FM.begin(), E = FM.end(); I != E && N < Got.size(); ++N) {
    expect(*I == Got[N] && *J == Got[N] && *I.operator->() == Got[N], "iterators stand at different features");
    expect(I == J && !(I != J) && !(I == E), "comparison of iterators at the same feature");
    auto K = J++;
    expect(*K == Got[N], "post-increment does not give the old position");
    FeatureModel::DFSIterator L(I);
    ++L;
    if (coin()) {
      expect(*I == Got[N], "stepping a copy moves the original");
    }
    ++I;
    expect(*L == *I, "a copy steps differently");
  }
  expect(N == Got.size() && J == CM.end() && *J == nullptr, "iterators end at different places");
  ++J;
  expect(J == CM.end(), "stepping an iterator at its end");
  N = 0;
  for (auto *F : CM.features()) {
    expect(N < Got.size() && F == Got[N++], "const iteration differs");
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  freopen("/dev/null", "w", stderr);
  while (more()) {
    FeatureModel FM;
    RefModel R = grow(FM, rnd(20));
    check(FM, R);
  }
  finish();
  return 0;
}
