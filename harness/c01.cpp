// C01: cloning a constraint
#include "tree.h"
using namespace hn;

static void check(const TP &T, std::vector<std::unique_ptr<Feature>> &Pool) {
  begin("clone", dump(T));
  bool Ref = coin();
  LeafFn Leaf = [&](const std::string &N) -> std::unique_ptr<Constraint> {
    if (Ref && coin(70)) {
      for (auto &F : Pool) {
        if (F->getName() == N) {
          return std::make_unique<PrimaryFeatureConstraint>(F.get());
        }
      }
    }
    return ownedLeaf(N);
  };
  auto C = make(T, Leaf);
  std::vector<const void *> Before;
  std::vector<Feature *> BF;
  nodes(C.get(), Before);
  leafFeatures(C.get(), BF);
  auto D = C->clone();
  if (!expect(D != nullptr, "clone is null")) {
    return;
  }
  std::string P1, P2;
  expect(same(readback(D.get(), &P1), T), "clone reads " +
                                              dump(readback(D.get())));
  expect(P1.empty(), "clone: " + P1);
  std::vector<const void *> Now;
  std::vector<Feature *> NF;
  nodes(C.get(), Now);
  leafFeatures(C.get(), NF);
  expect(same(readback(C.get(), &P2), T), "original changed to " +
                                              dump(readback(C.get())));
  expect(P2.empty(), "original: " + P2);
  expect(Now == Before && NF == BF, "the original's nodes were replaced");
  std::vector<const void *> DN;
  std::vector<Feature *> DF;
  nodes(D.get(), DN);
  leafFeatures(D.get(), DF);
  std::set<const void *> S(Before.begin(), Before.end());
  S.insert(BF.begin(), BF.end());
  for (auto *N : DN) {
    expect(S.insert(N).second, "clone shares a node");
  }
  for (auto *N : DF) {
    expect(S.insert(N).second, "clone shares a feature");
  }
  // a clone of an operand is an independent root as well
  if (auto *B = dynamic_cast<BinaryConstraint *>(C.get())) {
    auto E = B->getRightOperand()->clone();
    std::string P3;
    expect(same(readback(E.get(), &P3), T->R) && P3.empty(),
           "clone of right operand: " + P3);
    expect(B->getRightOperand()->getParent() == B, "operand was detached");
  }
  std::string Text = C->toString();
  C.reset();
  expect(same(readback(D.get()), T), "clone depends on the original");
  expect(D->toString() == Text, "clone prints differently");
  auto E = D->clone();
  D.reset();
  expect(same(readback(E.get()), T), "second clone differs");
}

int main(int argc, char **argv) {
  init(argc, argv);
  std::vector<std::unique_ptr<Feature>> Pool;
  Gen G;
  for (auto &N : G.Names) {
    Pool.push_back(std::make_unique<Feature>(N));
  }
  for (auto &T : G.systematic()) {
    check(T, Pool);
    check(T, Pool);
  }
  while (more()) {
    check(G.tree(1 + rnd(7)), Pool);
  }
  finish();
}
