// C13: the order of features against a depth-first walk written down independently
#define OPEN_ACCESS
#include "fm.h"
#include "vara/Feature/OrderedFeatureVector.h"
using namespace hn;

static std::string low(const std::string &S) {
  std::string R = S;
  for (auto &C : R) {
    C = std::tolower((unsigned char)C);
  }
  return R;
}

static Node above(const RefModel &R, Node F) {
  Node P = R.M.at(F).Par;
  return P && !R.M.at(P).IsF ? R.M.at(P).Par : P;
}

/// Path of names from the root down to F (lower case).
static std::vector<std::string> path(const RefModel &R, Node F) {
  std::vector<std::string> P;
  for (Node N = F; N; N = above(R, N)) {
    P.insert(P.begin(), low(R.M.at(N).Name));
  }
  return P;
}

static const Feature *feat(Node N) { return static_cast<const Feature *>(N); }

static void check(FeatureModel &FM, const RefModel &R) {
  std::vector<Node> Fs;
  std::string D;
  std::set<std::vector<std::string>> Paths;
  bool Ties = false;
  for (auto &[P, X] : R.M) {
    if (X.IsF) {
      D += " " + X.Name + "<-" + (X.Par ? nname(R, X.Par) : "-");
      Fs.push_back(P);
      Ties |= !Paths.insert(path(R, P)).second;
    }
  }
  begin("tree:" + std::to_string(R.M.size()), D);
  size_t Before = AllFails;
  for (Node A : Fs) {
    for (Node B : Fs) {
      auto NA = low(R.M.at(A).Name), NB = low(R.M.at(B).Name);
      bool Want = path(R, A) < path(R, B), Same = NA == NB;
      std::string W = R.M.at(A).Name + " and " + R.M.at(B).Name;
      if (!Ties) {
        expect_eq(*feat(A) < *feat(B), Want, "< of " + W);
        expect_eq(*feat(B) > *feat(A), Want, "> of " + W);
      }
      expect_eq(*feat(A) == *feat(B), Same, "== of " + W);
      expect_eq(*feat(A) != *feat(B), !Same, "!= of " + W);
      if (Same) {
        expect(feat(A)->hash() == feat(B)->hash(), "equal features have different hashes: " + W);
      }
      if (AllFails != Before) {
        return;
      }
    }
  }
  if (Ties) {
    return;
  }
  // sorted vectors
  auto Less = [&](Node A, Node B) { return path(R, A) < path(R, B); };
  std::vector<Node> In;
  for (size_t I = rnd(12); I > 0 && !Fs.empty(); --I) {
    In.push_back(Fs[rnd(Fs.size())]);
  }
  auto Mut = [](Node N) { return const_cast<Feature *>(feat(N)); };
  deprecated::OrderedFeatureVector V;
  std::vector<Feature *> Raw;
  for (Node N : In) {
    Raw.push_back(Mut(N));
  }
  if (coin()) {
    V.insert(Raw.begin(), Raw.end());
  } else {
    for (auto *F : Raw) {
      V.insert(F);
    }
  }
  auto Want = In;
  if (!In.empty() && coin()) {
    Node Out = In[rnd(In.size())];
    V.remove(Mut(Out));
    Want.erase(std::remove(Want.begin(), Want.end(), Out), Want.end());
  }
  std::stable_sort(Want.begin(), Want.end(), Less);
  std::string G, E;
  for (auto *F : V) {
    G += F->getName().str() + " ";
  }
  for (Node N : Want) {
    E += R.M.at(N).Name + " ";
  }
  expect_eq(G, E, "elements of the ordered vector");
  expect(V.size() == Want.size() && V.empty() == Want.empty(), "size of the ordered vector");
}

static void foreign() {
  static const char *Names[] = {"a", "A", "b", "B", "ab", "Zz", "zA", "_", "root"};
  std::string A = Names[rnd(9)], B = Names[rnd(9)];
  begin("foreign", A + " and " + B + " in no model");
  Feature F(A), G(B);
  bool Want = low(A) < low(B), Same = low(A) == low(B);
  expect_eq(F < G, Want, "<");
  expect_eq(G > F, Want, ">");
  expect_eq(F == G, Same, "==");
  expect(!(F < F) && F == F && !(F != F), "comparison with itself");
}

int main(int argc, char **argv) {
  init(argc, argv);
  freopen("/dev/null", "w", stderr);
  while (more()) {
    if (rnd(10) == 0) {
      foreign();
      continue;
    }
    FeatureModel FM;
    RefModel R = grow(FM, rnd(20));
    check(FM, R);
  }
  finish();
  return 0;
}
