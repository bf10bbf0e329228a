// C07: the modifications of a feature model, against an independent reference model
#define OPEN_ACCESS
#include "fm.h"
using namespace hn;
using namespace vara::feature::detail;
using FMM = FeatureModelModification;

static std::string errName(FTErrorCode E) { return std::to_string((int)E); }

// runs a modification directly, through exec, or in a transaction of its own
template <typename Mod, typename... As> static int run(FeatureModel &FM, As &&...A) {
  if (coin()) {
    auto M = FMM::makeModification<Mod>(std::forward<As>(A)...);
    auto E = M(FM);
    return E ? -1 : (int)E.getError();
  }
  std::unique_ptr<FMM> M = FMM::makeUniqueModification<Mod>(std::forward<As>(A)...);
  auto E = M->exec(FM);
  return E ? -1 : (int)E.getError();
}

static FeatureVariantTy var(const RefModel &R, Node F, std::string &Txt) {
  if (coin(10)) {
    Txt += " <missing>";
    return std::string("no such feature");
  }
  Txt += " " + nname(R, F);
  if (F && coin()) {
    return R.M.at(F).Name;
  }
  if (coin(4)) {
    Txt += "<null>";
    return (Feature *)nullptr;
  }
  return llvm::cast_or_null<Feature>(F);
}
static Node target(const RefModel &R, const FeatureVariantTy &V) {
  if (auto *S = std::get_if<std::string>(&V)) {
    return R.byName(*S);
  }
  return std::get<Feature *>(V);
}
static FeatureTreeNodeVariantTy nvar(const RefModel &R, Node N, std::string &Txt) {
  if (coin(5)) {
    Txt += " <missing>";
    return std::string("no such feature");
  }
  Txt += " " + nname(R, N);
  if (N && R.M.at(N).IsF && coin()) {
    return R.M.at(N).Name;
  }
  return N;
}
static Node nfind(const RefModel &R, const FeatureTreeNodeVariantTy &V) {
  if (auto *S = std::get_if<std::string>(&V)) {
    return R.byName(*S);
  }
  return std::get<FeatureTreeNode *>(V);
}

static void history() {
  FeatureModel FM;
  RefModel R = read(FM);
  std::string H;
  begin("default", "a default model");
  expect(R.M.size() == 1 && R.Root && R.M[R.Root].Name == "root", "a default model is not just a root");
  if (coin(30)) {
    H = "RemoveFeature root;";
    begin("RemoveFeature", H);
    expect_eq(run<RemoveFeatureFromModel>(FM, llvm::cast<Feature>(R.Root), false), -1, "removing the root of an empty model");
    R.drop(R.Root);
    if (!agrees(FM, R, H)) {
      return;
    }
  }
  for (size_t I = 0, N = 2 + rnd(12); I < N; ++I) {
    int Want = -1;
    int Op = rnd(I < 5 ? 3 : 12);
    std::string T;
    if (Op <= 1 || Op == 11) {
      bool Dup = coin(8) && choose(R, 1);
      std::string Nm = Dup ? R.M[choose(R, 1)].Name : freshName(R);
      auto F = randFeature(Nm);
      int K = (int)F->getKind();
      Node P = F.get();
      Node Par = coin(80) ? choose(R, 1) : nullptr;
      T = "AddFeature " + Nm + " below " + nname(R, Par);
      begin("AddFeature", H + T);
      int E = run<AddFeatureToModel>(FM, std::move(F), llvm::cast_or_null<Feature>(Par));
      Want = R.byName(Nm) ? (int)ALREADY_PRESENT : -1;
      expect_eq(E, Want, "result of " + T);
      if (Want == -1) {
        R.M[P] = {true, Nm, K, Par ? Par : R.Root};
      }
    } else if (Op == 2) {
      T = "AddRelationship";
      auto V = var(R, choose(R, 1), T);
      auto K = coin() ? Relationship::RelationshipKind::RK_ALTERNATIVE : Relationship::RelationshipKind::RK_OR;
      begin("AddRelationship", H + T);
      Node P = target(R, V);
      std::set<Node> Old = P ? R.kids(P) : std::set<Node>();
      int E = run<AddRelationshipToModel>(FM, K, V);
      Want = P ? -1 : (int)MISSING_PARENT;
      expect_eq(E, Want, "result of " + T);
      if (P) {
        Node G = nullptr;
        for (auto &U : std::as_const(FM).relationships()) {
          if (!R.M.count(U.get())) {
            G = U.get();
          }
        }
        if (!expect(G != nullptr, T + ": no new group")) {
          return;
        }
        for (Node C : Old) {
          if (R.M[C].IsF) {
            R.M[C].Par = G;
          }
        }
        R.M[G] = {false, "", (int)K, P};
      }
    } else if (Op == 3 || Op == 4) {
      bool Rec = coin();
      T = std::string("RemoveFeature") + (Rec ? " recursively" : "");
      auto V = var(R, choose(R, 1), T);
      begin("RemoveFeature", H + T);
      Node P = target(R, V);
      Want = !P ? (int)MISSING_FEATURE : !Rec && R.hasFeatureBelow(P) ? (int)NON_LEAF_NODE : -1;
      int E = run<RemoveFeatureFromModel>(FM, V, Rec);
      expect_eq(E, Want, "result of " + T);
      if (Want == -1) {
        R.drop(P);
      }
    } else if (Op == 5) {
      T = "RemoveRelationship";
      auto V = var(R, choose(R, 1), T);
      begin("RemoveRelationship", H + T);
      Node P = target(R, V);
      std::set<Node> Gs;
      for (Node C : P ? R.kids(P) : std::set<Node>()) {
        if (!R.M[C].IsF) {
          Gs.insert(C);
        }
      }
      Want = !P ? (int)MISSING_PARENT : Gs.empty() ? (int)MISSING_CHILD : -1;
      int E = run<RemoveRelationshipFromModel>(FM, V);
      expect_eq(E, Want, "result of " + T);
      if (Want == -1) { // any one of the groups
        for (auto &U : std::as_const(FM).relationships()) {
          Gs.erase(U.get());
        }
        if (!expect_eq(Gs.size(), (size_t)1, "groups removed by " + T)) {
          return;
        }
        for (Node C : R.kids(*Gs.begin())) {
          R.M[C].Par = P;
        }
        R.M.erase(*Gs.begin());
      }
    } else if (Op == 6 || Op == 7) {
      T = "AddChild";
      auto VP = nvar(R, choose(R, -1), T);
      auto VC = nvar(R, choose(R, -1), T);
      begin("AddChild", H + T);
      Node P = nfind(R, VP), C = nfind(R, VC);
      if (P && C && !R.M[P].IsF && !R.M[C].IsF) {
        continue; // groups hang below features
      }
      Want = !C ? (int)MISSING_CHILD : !P ? (int)MISSING_PARENT : R.below(P, C) ? (int)RECURSIVE_EDGE : -1;
      int E = run<AddChild>(FM, VP, VC);
      expect_eq(E, Want, "result of " + T);
      if (Want == -1) {
        R.M[C].Par = P;
      }
    } else if (Op == 8) {
      Node Loose = nullptr;
      for (auto &[P, X] : R.M) {
        Loose = !R.Root && !X.Par ? P : Loose;
      }
      if (Loose) {
        continue; // a rootless model with loose features
      }
      std::string Nm = R.Root && coin(15) ? R.M[R.Root].Name : coin(10) && choose(R, 1) ? R.M[choose(R, 1)].Name : freshName(R);
      auto Rt = std::make_unique<RootFeature>(Nm);
      Node P = Rt.get();
      T = "SetRoot " + Nm;
      begin("SetRoot", H + T);
      bool Same = R.Root && R.M[R.Root].Name == Nm;
      Want = !Same && R.byName(Nm) ? (int)ALREADY_PRESENT : -1;
      int E = run<SetRoot>(FM, std::move(Rt));
      expect_eq(E, Want, "result of " + T);
      if (Want == -1 && !Same) {
        for (Node C : R.kids(R.Root)) {
          R.M[C].Par = P;
        }
        R.M.erase(R.Root);
        R.M[P] = {true, Nm, (int)Feature::FeatureKind::FK_ROOT};
        R.Root = P;
      }
    } else if (Op == 9) {
      auto L = randLoc();
      bool Add = coin(60);
      T = Add ? "AddLocation" : "RemoveLocation";
      auto V = var(R, choose(R, 1), T);
      T += " " + locText(L);
      begin(Add ? "AddLocation" : "RemoveLocation", H + T);
      Node P = target(R, V);
      Want = P ? -1 : (int)MISSING_FEATURE;
      int E = Add ? run<AddLocationToFeature>(FM, V, L) : run<RemoveLocationFromFeature>(FM, V, L);
      expect_eq(E, Want, "result of " + T);
      if (P) {
        auto &X = R.M[P].Locs;
        auto It = std::find(X.begin(), X.end(), locText(L));
        if (Add) {
          X.push_back(locText(L));
        } else if (It != X.end()) {
          X.erase(It);
        }
      }
    } else {
      std::string S = freshName(R);
      int W = rnd(3);
      T = (W == 0 ? "SetName " : W == 1 ? "SetCommit " : "SetPath ") + S;
      begin("SetMetadata", H + T);
      int E = W == 0 ? run<SetName>(FM, S) : W == 1 ? run<SetCommit>(FM, S) : run<SetPath>(FM, fs::path(S));
      (W == 0 ? R.Name : W == 1 ? R.Commit : R.Path) = S;
      expect_eq(E, -1, "result of " + T);
    }
    if (!agrees(FM, R, T)) {
      return;
    }
    H += T + (Want == -1 ? ";" : " (error " + std::to_string(Want) + ");");
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  while (more()) {
    history();
  }
  finish();
}
