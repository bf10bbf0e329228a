// Feature models: a reference model the real one is compared with, and generators.
#pragma once
#include "harness.h"
#include <algorithm>
#include <deque>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <memory>
#include <optional>
#include <queue>
#include <regex>
#include <stack>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include "llvm/ADT/SmallSet.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/ADT/DirectedGraph.h"
#include "llvm/ADT/iterator_range.h"
#include "llvm/Support/Casting.h"
#include "llvm/Support/GraphWriter.h"
#include "llvm/Support/raw_ostream.h"
#ifdef OPEN_ACCESS
#define private public
#define protected public
#endif
#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelTransaction.h"
#ifdef OPEN_ACCESS
#undef private
#undef protected
#endif

namespace hn {
using namespace vara::feature;
using Node = FeatureTreeNode *;

inline std::string locText(const FeatureSourceRange &L) {
  FeatureSourceRange C = L;
  std::ostringstream S;
  S << (int)C.getCategory() << "|" << C.getPath().string() << "|";
  if (C.getStart()) {
    S << C.getStart()->getLineNumber() << ":" << C.getStart()->getColumnOffset();
  }
  S << "|";
  if (C.getEnd()) {
    S << C.getEnd()->getLineNumber() << ":" << C.getEnd()->getColumnOffset();
  }
  S << "|";
  if (C.getMemberOffset()) {
    S << C.getMemberOffset()->toString();
  }
  return S.str();
}

// what a model is supposed to look like, by node identity
struct RefModel {
  struct N {
    bool IsF = true;
    std::string Name;
    int Kind = 0;
    Node Par = nullptr;
    std::vector<std::string> Locs;
  };
  std::map<Node, N> M;
  Node Root = nullptr;
  std::string Name, Commit, Path;

  Node byName(const std::string &S) const {
    for (auto &[P, X] : M) {
      if (X.IsF && X.Name == S) {
        return P;
      }
    }
    return nullptr;
  }
  std::set<Node> kids(Node P) const {
    std::set<Node> R;
    for (auto &[Q, X] : M) {
      if (X.Par == P && P) {
        R.insert(Q);
      }
    }
    return R;
  }
  bool below(Node C, Node P) const { // C in the subtree of P
    for (; C; C = M.at(C).Par) {
      if (C == P) {
        return true;
      }
    }
    return false;
  }
  bool hasFeatureBelow(Node P) const {
    for (auto &[Q, X] : M) {
      if (Q != P && X.IsF && below(Q, P)) {
        return true;
      }
    }
    return false;
  }
  void drop(Node P) {
    std::vector<Node> D;
    for (auto &[Q, X] : M) {
      if (below(Q, P)) {
        D.push_back(Q);
      }
    }
    for (Node Q : D) {
      M.erase(Q);
      if (Root == Q) {
        Root = nullptr;
      }
    }
  }
};

inline std::string nname(const RefModel &R, Node N) {
  if (!N) {
    return "none";
  }
  auto I = R.M.find(N);
  if (I == R.M.end()) {
    return "foreign node";
  }
  return I->second.IsF ? I->second.Name : "group of " + nname(R, I->second.Par);
}

// compares the real model with the reference; reports the first difference
inline bool agrees(FeatureModel &FM, const RefModel &R, const std::string &When) {
  size_t NF = 0, NR = 0;
  for (auto &[P, X] : R.M) {
    if (X.IsF) {
      ++NF;
      if (!expect(FM.getFeature(X.Name) == P, When + ": getFeature('" + X.Name + "') is not that feature")) {
        return false;
      }
      auto *F = llvm::dyn_cast<Feature>(P);
      if (!expect(F && F->getName() == X.Name, When + ": feature '" + X.Name + "' lost its name") ||
          !expect((int)F->getKind() == X.Kind, When + ": feature '" + X.Name + "' changed its kind")) {
        return false;
      }
      std::vector<std::string> L;
      for (auto I = F->getLocationsBegin(); I != F->getLocationsEnd(); ++I) {
        L.push_back(locText(*I));
      }
      if (!expect(L == X.Locs, When + ": locations of '" + X.Name + "' differ")) {
        return false;
      }
    } else {
      ++NR;
      size_t Seen = 0;
      for (auto &U : std::as_const(FM).relationships()) {
        Seen += U.get() == P;
      }
      if (!expect(Seen == 1, When + ": the group of " + nname(R, X.Par) + " is stored " + std::to_string(Seen) + " times") ||
          !expect((int)llvm::cast<Relationship>(P)->getKind() == X.Kind, When + ": group changed its kind")) {
        return false;
      }
    }
    if (!expect(P->getParent() == X.Par, When + ": parent of " + nname(R, P) + " is " + nname(R, P->getParent()) +
                                             ", expected " + nname(R, X.Par))) {
      return false;
    }
    std::set<Node> K(P->begin(), P->end()), W = R.kids(P);
    if (!expect(K == W, When + ": children of " + nname(R, P) + " differ (" + std::to_string(K.size()) + " instead of " +
                            std::to_string(W.size()) + ")")) {
      return false;
    }
  }
  size_t GF = 0, GR = 0;
  for (auto *F : FM.unorderedFeatures()) {
    (void)F;
    ++GF;
  }
  for (auto &U : std::as_const(FM).relationships()) {
    (void)U;
    ++GR;
  }
  return expect_eq(GF, NF, When + ": number of features") && expect_eq(GR, NR, When + ": number of groups") &&
         expect_eq(FM.size(), NF, When + ": size()") &&
         expect((Node)FM.getRoot() == R.Root, When + ": root is " + nname(R, FM.getRoot()) + ", expected " + nname(R, R.Root)) &&
         expect_eq(FM.getName().str(), R.Name, When + ": model name") &&
         expect_eq(FM.getCommit().str(), R.Commit, When + ": commit") &&
         expect_eq(FM.getPath().string(), R.Path, When + ": path");
}

inline RefModel read(FeatureModel &FM) {
  RefModel R;
  for (auto *F : FM.unorderedFeatures()) {
    auto &X = R.M[F];
    X.Name = F->getName().str();
    X.Kind = (int)F->getKind();
    X.Par = F->getParent();
    for (auto I = F->getLocationsBegin(); I != F->getLocationsEnd(); ++I) {
      X.Locs.push_back(locText(*I));
    }
  }
  for (auto &U : std::as_const(FM).relationships()) {
    auto &X = R.M[U.get()];
    X.IsF = false;
    X.Kind = (int)U->getKind();
    X.Par = U->getParent();
  }
  R.Root = FM.getRoot();
  R.Name = FM.getName().str();
  R.Commit = FM.getCommit().str();
  R.Path = FM.getPath().string();
  return R;
}

inline FeatureSourceRange randLoc() {
  using L = FeatureSourceRange;
  std::optional<L::FeatureSourceLocation> A, B;
  if (coin(60)) {
    A = L::FeatureSourceLocation(1 + rnd(3), 1 + rnd(3));
    if (coin(70)) {
      B = L::FeatureSourceLocation(1 + rnd(3), 1 + rnd(3));
    }
  }
  std::optional<L::FeatureMemberOffset> O;
  if (coin(20)) {
    O = L::FeatureMemberOffset::createFeatureMemberOffset(coin() ? "A::B::c" : "A::c");
  }
  return {fs::path(coin() ? "a.cpp" : "b.cpp"), A, B, coin(70) ? L::Category::necessary : L::Category::inessential, O};
}

inline std::string freshName(const RefModel &R) {
  static const char *Base[] = {"a", "b", "A", "f", "foo", "foo_bar", "x1", "z"};
  for (int I = 0;; ++I) {
    std::string S = Base[rnd(8)];
    if (I || coin(40)) {
      S += std::to_string(rnd(30));
    }
    if (!R.byName(S)) {
      return S;
    }
  }
}

inline std::unique_ptr<Feature> randFeature(const std::string &N) {
  if (coin(70)) {
    return std::make_unique<BinaryFeature>(N, coin());
  }
  if (coin()) {
    return std::make_unique<NumericFeature>(N, std::make_pair<int64_t, int64_t>(0, 5), coin());
  }
  return std::make_unique<NumericFeature>(N, std::vector<int64_t>{1, 3}, coin());
}

inline Node choose(const RefModel &R, int WantF) { // 1 feature, 0 group, -1 any
  std::vector<std::pair<std::string, Node>> C;
  for (auto &[P, X] : R.M) {
    if (WantF < 0 || X.IsF == (WantF == 1)) {
      C.push_back({X.Name + "/" + nname(R, X.Par), P});
    }
  }
  if (C.empty()) {
    return nullptr;
  }
  std::sort(C.begin(), C.end());
  return C[rnd(C.size())].second;
}

#ifdef OPEN_ACCESS
// a random model built by modifications
inline RefModel grow(FeatureModel &FM, size_t N) {
  using namespace vara::feature::detail;
  RefModel R = read(FM);
  for (size_t I = 0; I < N; ++I) {
    Node P = choose(R, 1);
    if (P && coin(20)) {
      FeatureModelModification::makeModification<AddRelationshipToModel>(
          coin() ? Relationship::RelationshipKind::RK_ALTERNATIVE : Relationship::RelationshipKind::RK_OR,
          FeatureVariantTy(llvm::cast<Feature>(P)))(FM);
    } else {
      auto F = randFeature(freshName(R));
      auto *Q = F.get();
      FeatureModelModification::makeModification<AddFeatureToModel>(std::move(F), llvm::cast_or_null<Feature>(P))(FM);
      if (coin(30) && choose(R, 0)) { // into a group
        FeatureModelModification::makeModification<AddChild>(FeatureTreeNodeVariantTy(choose(R, 0)),
                                                             FeatureTreeNodeVariantTy((Node)Q))(FM);
      }
    }
    R = read(FM);
  }
  return R;
}
#endif
} // namespace hn
