// C24: the consistency rules against the definition of consistency, on models that are damaged in every way a rule looks for
#define OPEN_ACCESS
#include "fm.h"
using namespace hn;

static Feature *above(Feature *F) {
  for (Node P = F->getParent(); P; P = P->getParent()) {
    if (P->getKind() == FeatureTreeNode::NodeKind::NK_FEATURE) {
      return static_cast<Feature *>(P);
    }
  }
  return nullptr;
}

static std::string describe(FeatureModel &FM) {
  std::string S = FM.Root ? "root " + FM.Root->getName().str() + ";" : "no root;";
  for (auto *F : FM.unorderedFeatures()) {
    S += " " + F->getName().str() + (F->getKind() == Feature::FeatureKind::FK_ROOT ? "[root]" : "") + "<-" +
         (!F->getParent() ? "none" : above(F) ? above(F)->getName().str() : "group without feature") +
         (F->getParent() && !F->getParent()->hasEdgeTo(*F) ? "!" : "");
  }
  return S;
}

static void check(FeatureModel &FM, const std::string &Key) {
  begin(Key, describe(FM));
  size_t Roots = 0;
  bool Parents = true, Edges = true, Safe = true;
  for (auto &E : FM.Features) {
    Feature *F = E.getValue().get();
    bool IsRoot = F->getKind() == Feature::FeatureKind::FK_ROOT;
    Roots += IsRoot;
    if (expect(F->getParentFeature() == above(F), "getParentFeature of " + F->getName().str()); !IsRoot) {
      Parents &= above(F) != nullptr;
      Safe &= F->getParent() != nullptr;
      bool Has = false;
      if (F->getParent()) {
        for (auto *C : *F->getParent()) {
          Has |= C == F;
        }
      }
      Edges &= Has;
    }
  }
  bool One = FM.Root && FM.Root->Feature::getKind() == Feature::FeatureKind::FK_ROOT && Roots == 1;
  expect_eq(ExactlyOneRootNode::check(FM), One, "ExactlyOneRootNode");
  expect_eq(EveryFeatureRequiresParent::check(FM), Parents, "EveryFeatureRequiresParent");
  if (Safe) {
    expect_eq(CheckFeatureParentChildRelationShip::check(FM), Edges, "CheckFeatureParentChildRelationShip");
  }
  auto V = FeatureModelConsistencyChecker<ExactlyOneRootNode, EveryFeatureRequiresParent,
                                          CheckFeatureParentChildRelationShip>::isFeatureModelValid(FM);
  expect_eq((bool)V, One && Parents && Edges, "the checker with all rules");
  if (!V) {
    expect_eq((int)V.getError(), (int)INCONSISTENT, "error code");
  }
  auto W = FeatureModelConsistencyChecker<EveryFeatureRequiresParent, ExactlyOneRootNode>::isFeatureModelValid(FM);
  expect_eq((bool)W, One && Parents, "the checker with two rules");
  expect((bool)FeatureModelConsistencyChecker<>::isFeatureModelValid(FM), "the checker without rules");
}

int main(int argc, char **argv) {
  init(argc, argv);
  freopen("/dev/null", "w", stderr);
  while (more()) {
    FeatureModel FM;
    RefModel R = grow(FM, rnd(8));
    check(FM, "consistent");
    std::unique_ptr<Feature> Extra;
    RootFeature Loose("loose");
    for (size_t I = 0, N = 1 + rnd(2); I < N; ++I) {
      Node X = choose(R, 1);
      auto *F = X ? llvm::cast<Feature>(X) : nullptr;
      switch (rnd(8)) {
      case 0:
        F->setParent(nullptr);
        break;
      case 1:
        if (F->getParent()) {
          Node P = F->getParent();
          P->removeEdge(F);
        }
        break;
      case 2: {
        auto S = freshName(R);
        FM.Features[S] = std::make_unique<RootFeature>(S);
        break;
      }
      case 3:
        FM.Root = nullptr;
        break;
      case 4:
        if (Node G = choose(R, 0)) {
          G->setParent(nullptr);
        }
        break;
      case 5:
        FM.Root = coin() ? &Loose : FM.Root;
        break;
      case 6: {
        auto S = freshName(R);
        FM.Features[S] = randFeature(S);
        if (coin()) {
          FM.Features[S]->setParent(F);
        }
        break;
      }
      case 7:
        if (F->getParent()) {
          F->setParent(FM.Root);
        }
        break;
      }
    }
    check(FM, "damaged");
  }
  finish();
}
