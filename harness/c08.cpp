// C08: transactions, against a reference model that identifies nodes by name
#define OPEN_ACCESS
#include "fm.h"
using namespace hn;
using namespace vara::feature::detail;
using RKind = Relationship::RelationshipKind;

struct MN {
  bool F = true;
  std::string Name;
  int Kind = 0, Par = 0;
  std::vector<std::string> Locs;
};
struct Mini {
  std::map<int, MN> M;
  std::map<Node, int> Id;
  int Root = 0, Next = 1;
  std::string Name, Commit, Path;

  int byName(const std::string &S) const {
    for (auto &[I, X] : M) {
      if (X.F && X.Name == S) {
        return I;
      }
    }
    return 0;
  }
  std::vector<int> kids(int P) const {
    std::vector<int> R;
    for (auto &[I, X] : M) {
      if (P && X.Par == P) {
        R.push_back(I);
      }
    }
    return R;
  }
  bool below(int C, int P) const {
    for (; C; C = M.at(C).Par) {
      if (C == P) {
        return true;
      }
    }
    return false;
  }
  std::string text(int I) const {
    auto &X = M.at(I);
    std::vector<std::string> K;
    for (int C : kids(I)) {
      K.push_back(text(C));
    }
    std::sort(K.begin(), K.end());
    std::string S = X.F ? X.Name + "#" + std::to_string(X.Kind) : "<" + std::to_string(X.Kind) + ">";
    for (auto &L : X.Locs) {
      S += "@" + L;
    }
    S += "(";
    for (auto &T : K) {
      S += T + ",";
    }
    return S + ")";
  }
  std::string dump() const {
    std::vector<std::string> K;
    for (auto &[I, X] : M) {
      if (!X.Par) {
        K.push_back((I == Root ? "*" : "") + text(I));
      }
    }
    std::sort(K.begin(), K.end());
    std::string S = Name + "|" + Commit + "|" + Path + "|";
    for (auto &T : K) {
      S += T + ";";
    }
    return S;
  }
  bool consistent() const {
    int Roots = 0;
    for (auto &[I, X] : M) {
      bool IsRoot = X.F && X.Kind == (int)Feature::FeatureKind::FK_ROOT;
      Roots += IsRoot;
      if (X.F && !IsRoot && !X.Par) {
        return false;
      }
    }
    return Roots == 1 && Root;
  }
};

static Mini mini(FeatureModel &FM) {
  RefModel R = read(FM);
  Mini N;
  for (auto &[P, X] : R.M) {
    N.Id[P] = N.Next++;
  }
  for (auto &[P, X] : R.M) {
    N.M[N.Id[P]] = {X.IsF, X.Name, X.Kind, X.Par ? N.Id[X.Par] : 0, X.Locs};
  }
  N.Root = R.Root ? N.Id[R.Root] : 0;
  N.Name = R.Name;
  N.Commit = R.Commit;
  N.Path = R.Path;
  return N;
}

// one modification; nodes are named by feature name, or by the node of the model it was written for
struct Op {
  int K = 0;
  std::string Name, Txt;
  int Kind = 0;
  bool Rec = false;
  FeatureSourceRange Loc = randLoc();
  FeatureVariantTy V = std::string();
  FeatureTreeNodeVariantTy C = std::string(), P = std::string();
  Feature *Par = nullptr;
};

static int pick(const Mini &M, const FeatureVariantTy &V) {
  if (auto *S = std::get_if<std::string>(&V)) {
    return M.byName(*S);
  }
  auto *F = std::get<Feature *>(V);
  return F ? M.byName(F->getName().str()) : 0;
}
static int pickNode(const Mini &M, const FeatureTreeNodeVariantTy &V) {
  if (auto *S = std::get_if<std::string>(&V)) {
    return M.byName(*S);
  }
  auto *N = std::get<Node>(V);
  if (!N) {
    return 0;
  }
  if (auto I = M.Id.find(N); I != M.Id.end()) {
    return I->second;
  }
  if (auto *F = llvm::dyn_cast<Feature>(N)) {
    return M.byName(F->getName().str());
  }
  auto *Rel = llvm::cast<Relationship>(N);
  auto *PF = llvm::dyn_cast_or_null<Feature>(Rel->getParent());
  int Q = PF ? M.byName(PF->getName().str()) : 0;
  for (int I : Q ? M.kids(Q) : std::vector<int>()) {
    if (!M.M.at(I).F && M.M.at(I).Kind == (int)Rel->getKind()) {
      return I;
    }
  }
  return 0;
}

// what the modification does to the model; -1 or the error; -2: not specified
static int apply(Mini &M, const Op &O) {
  auto Groups = [&](int P) {
    std::vector<int> G;
    for (int C : M.kids(P)) {
      if (!M.M[C].F) {
        G.push_back(C);
      }
    }
    return G;
  };
  switch (O.K) {
  case 0: {
    if (M.byName(O.Name)) {
      return ALREADY_PRESENT;
    }
    int P = O.Par ? M.byName(O.Par->getName().str()) : M.Root;
    M.M[M.Next++] = {true, O.Name, (int)Feature::FeatureKind::FK_BINARY, P ? P : M.Root};
    return -1;
  }
  case 1: {
    int P = pick(M, O.V);
    if (!P) {
      return MISSING_PARENT;
    }
    int G = M.Next++;
    for (int C : M.kids(P)) {
      if (M.M[C].F) {
        M.M[C].Par = G;
      }
    }
    M.M[G] = {false, "", O.Kind, P};
    return -1;
  }
  case 2: {
    int P = pick(M, O.V);
    if (!P) {
      return MISSING_FEATURE;
    }
    std::vector<int> D;
    for (auto &[I, X] : M.M) {
      if (M.below(I, P)) {
        D.push_back(I);
        if (I != P && X.F && !O.Rec) {
          return NON_LEAF_NODE;
        }
      }
    }
    for (int I : D) {
      M.M.erase(I);
      M.Root = M.Root == I ? 0 : M.Root;
    }
    return -1;
  }
  case 3: {
    int P = pick(M, O.V);
    if (!P) {
      return MISSING_PARENT;
    }
    auto G = Groups(P);
    if (G.empty()) {
      return MISSING_CHILD;
    }
    if (G.size() > 1) {
      return -2;
    }
    for (int C : M.kids(G[0])) {
      M.M[C].Par = P;
    }
    M.M.erase(G[0]);
    return -1;
  }
  case 4: {
    int C = pickNode(M, O.C), P = pickNode(M, O.P);
    if (!C) {
      return MISSING_CHILD;
    }
    if (!P) {
      return MISSING_PARENT;
    }
    if (!M.M[C].F && !M.M[P].F) {
      return -2;
    }
    if (M.below(P, C)) {
      return RECURSIVE_EDGE;
    }
    M.M[C].Par = P;
    return -1;
  }
  case 5:
  case 6: {
    int F = pick(M, O.V);
    if (!F) {
      return MISSING_FEATURE;
    }
    auto &L = M.M[F].Locs;
    auto It = std::find(L.begin(), L.end(), locText(O.Loc));
    if (O.K == 5) {
      L.push_back(locText(O.Loc));
    } else if (It != L.end()) {
      L.erase(It);
    }
    return -1;
  }
  case 7:
    M.Name = O.Name;
    return -1;
  case 8:
    M.Commit = O.Name;
    return -1;
  case 9:
    M.Path = O.Name;
    return -1;
  default: {
    if (M.Root && M.M[M.Root].Name == O.Name) {
      return -1;
    }
    if (M.byName(O.Name)) {
      return ALREADY_PRESENT;
    }
    if (!M.Root) {
      for (auto &[I, X] : M.M) {
        if (!X.Par) {
          return -2;
        }
      }
    }
    int N = M.Next++;
    for (int C : M.kids(M.Root)) {
      M.M[C].Par = N;
    }
    M.M.erase(M.Root);
    M.M[N] = {true, O.Name, (int)Feature::FeatureKind::FK_ROOT};
    M.Root = N;
    return -1;
  }
  }
}

static const char *What[] = {"addFeature", "addRelationship", "removeFeature", "removeRelationship", "addChild", "addLocation",
                             "removeLocation", "setName", "setCommit", "setPath", "setRoot"};

// a modification written for FM (its nodes still exist); Cur is what the model will look like then
static Op randOp(const RefModel &Orig, const Mini &Cur, bool Ptrs) {
  Op O;
  int W = rnd(20);
  O.K = W < 6 ? 0 : W < 8 ? 1 : W < 10 ? 2 : W < 11 ? 3 : W < 14 ? 4 : W < 16 ? 5 + rnd(2) : W < 19 ? 7 + rnd(3) : 10;
  auto Existing = [&]() -> std::string {
    std::vector<std::string> N;
    for (auto &[I, X] : Cur.M) {
      if (X.F) {
        N.push_back(X.Name);
      }
    }
    std::sort(N.begin(), N.end());
    return N.empty() || coin(4) ? "no such feature" : N[rnd(N.size())];
  };
  auto Fea = [&]() -> FeatureVariantTy {
    Node N = choose(Orig, 1);
    if (Ptrs && N && coin(40)) {
      O.Txt += " &" + nname(Orig, N);
      return llvm::cast<Feature>(N);
    }
    std::string S = Existing();
    O.Txt += " " + S;
    return S;
  };
  auto Nod = [&]() -> FeatureTreeNodeVariantTy {
    Node N = choose(Orig, -1);
    if (Ptrs && N && coin(50)) {
      O.Txt += " &" + nname(Orig, N);
      return N;
    }
    std::string S = Existing();
    O.Txt += " " + S;
    return S;
  };
  O.Txt = What[O.K];
  O.Kind = (int)(coin() ? RKind::RK_ALTERNATIVE : RKind::RK_OR);
  if (O.K == 0 || O.K >= 7) {
    O.Name = coin(O.K == 0 ? 5 : 15) ? Existing() : freshName(Orig);
    O.Txt += " " + O.Name;
  }
  if (O.K == 0 && Ptrs && coin(70)) {
    O.Par = llvm::cast_or_null<Feature>(choose(Orig, 1));
    O.Txt += " below " + nname(Orig, O.Par);
  }
  if (O.K == 1 || O.K == 2 || O.K == 3 || O.K == 5 || O.K == 6) {
    O.V = Fea();
  }
  if (O.K == 2) {
    O.Rec = coin(20);
    O.Txt += O.Rec ? " recursively" : "";
  }
  if (O.K == 4) {
    O.C = Nod();
    O.P = Nod();
  }
  return O;
}

struct Ret {
  bool Has = false, Ok = false;
  int E = 0;
};
template <typename R> static Ret ret(R X) { return {true, (bool)X, X ? 0 : (int)X.getError()}; }

template <typename TX> static Ret call(TX &T, Op O) {
  constexpr bool Copy = std::is_same_v<TX, FeatureModelCopyTransaction>;
  switch (O.K) {
  case 0:
    if constexpr (Copy) {
      return ret(T.addFeature(std::make_unique<BinaryFeature>(O.Name, true), O.Par));
    } else {
      T.addFeature(std::make_unique<BinaryFeature>(O.Name, true), O.Par);
    }
    break;
  case 1:
    if constexpr (Copy) {
      return ret(T.addRelationship((RKind)O.Kind, O.V));
    } else {
      T.addRelationship((RKind)O.Kind, O.V);
    }
    break;
  case 2:
    T.removeFeature(O.V, O.Rec);
    break;
  case 3:
    T.removeRelationship(O.V);
    break;
  case 4:
    T.addChild(O.P, O.C);
    break;
  case 5:
    T.addLocation(O.V, O.Loc);
    break;
  case 6:
    T.removeLocation(O.V, O.Loc);
    break;
  case 7:
    T.setName(O.Name);
    break;
  case 8:
    T.setCommit(O.Name);
    break;
  case 9:
    T.setPath(O.Name);
    break;
  default:
    if constexpr (Copy) {
      return ret(T.setRoot(std::make_unique<RootFeature>(O.Name)));
    } else {
      T.setRoot(std::make_unique<RootFeature>(O.Name));
    }
  }
  return {};
}

// would executing these modifications ever touch a node that is gone (a dangling pointer is the caller's mistake)
static bool dangles(const Mini &M, const Mini &Start, const Op &O) {
  auto Gone = [&](Node N) { return N && Start.Id.count(N) && !M.M.count(Start.Id.at(N)); };
  Node A = O.Par;
  if (auto *F = std::get_if<Feature *>(&O.V)) {
    A = A ? A : (Node)*F;
  }
  Node B = nullptr, C = nullptr;
  if (auto *N = std::get_if<Node>(&O.C)) {
    B = *N;
  }
  if (auto *N = std::get_if<Node>(&O.P)) {
    C = *N;
  }
  return Gone(A) || Gone(B) || Gone(C);
}

static bool start(FeatureModel &FM) {
  grow(FM, rnd(7));
  return (bool)detail::ConsistencyCheck::isFeatureModelValid(FM);
}

static void modify() {
  FeatureModel FM;
  if (!start(FM)) {
    return;
  }
  RefModel Orig = read(FM);
  Mini Begin = mini(FM), M = Begin;
  std::string H = "on " + Begin.dump() + ": ", Before = Begin.dump();
  begin("modify", H);
  int E = -1;
  size_t N = rnd(6);
  enum { COMMIT, ABORT, DROP, TWICE } End = coin(70) ? COMMIT : coin() ? ABORT : coin() ? DROP : TWICE;
  {
    auto T = FeatureModelModifyTransaction::openTransaction(FM);
    for (size_t I = 0; I < N; ++I) {
      Op O = randOp(Orig, M, true);
      if (E == -1) {
        Mini Try = M;
        if (dangles(M, Begin, O)) {
          continue;
        }
        int R = apply(Try, O);
        if (R == -2) {
          continue;
        }
        if (R == -1) {
          M = Try;
        }
        E = R;
      }
      H += O.Txt + "; ";
      begin(std::string("modify_") + What[O.K], H);
      call(T, O);
      expect_eq(mini(FM).dump(), Before, "model before the commit");
    }
    if (End == DROP) {
      begin("modify_drop", H + "drop");
    } else if (End == ABORT) {
      begin("modify_abort", H + "abort");
      T.abort();
      auto R = T.commit();
      expect(!R && R.getError() == ABORTED, "commit after abort does not report ABORTED");
    } else {
      begin("modify_commit", H + "commit");
      int Want = E != -1 ? E : M.consistent() ? -1 : (int)INCONSISTENT;
      auto R = T.commit();
      expect_eq(R ? -1 : (int)R.getError(), Want, "result of commit");
      if (End == TWICE) {
        begin("modify_twice", H + "commit twice");
        auto R2 = T.commit();
        expect(!R2 && R2.getError() == ABORTED, "second commit does not report ABORTED");
      }
    }
  }
  expect_eq(mini(FM).dump(), End == ABORT ? Before : M.dump(), "model afterwards");
}

static void copying() {
  FeatureModel FM;
  if (!start(FM)) {
    return;
  }
  RefModel Orig = read(FM);
  std::string Before = mini(FM).dump(), H = "on " + Before + ": ";
  begin("copy", H);
  auto T = FeatureModelCopyTransaction::openTransaction(FM);
  FeatureModel *Own = T.FM.get();
  if (!expect(Own && Own != &FM, "the transaction has no model of its own")) {
    T.abort();
    return;
  }
  Mini M = mini(*Own);
  std::unique_ptr<FeatureModel> Other = FM.clone();
  for (size_t I = 0, N = rnd(7); I < N; ++I) {
    // nodes of the original, or of the copy
    bool Mine = coin(30);
    RefModel Src = Mine ? read(*Own) : Orig;
    Op O = randOp(Src, M, true);
    if (auto *X = std::get_if<Node>(&O.C); X && !Mine && !Src.M.at(*X).IsF) {
      // a group must be the only one of its kind
      int Same = 0;
      for (Node K : Src.kids(Src.M.at(*X).Par)) {
        Same += !Src.M.at(K).IsF && Src.M.at(K).Kind == Src.M.at(*X).Kind;
      }
      if (Same != 1) {
        continue;
      }
    }
    if (auto *X = std::get_if<Node>(&O.P); X && !Mine && !Src.M.at(*X).IsF) {
      int Same = 0;
      for (Node K : Src.kids(Src.M.at(*X).Par)) {
        Same += !Src.M.at(K).IsF && Src.M.at(K).Kind == Src.M.at(*X).Kind;
      }
      if (Same != 1) {
        continue;
      }
    }
    Mini Try = mini(*Own);
    int Multi = 0; // groups of one kind below one feature cannot be told apart
    for (auto &[A, X] : Try.M) {
      for (auto &[B, Y] : Try.M) {
        Multi += A < B && !X.F && !Y.F && X.Par == Y.Par && X.Kind == Y.Kind;
      }
    }
    if (O.K == 4 && Multi) {
      continue;
    }
    int E = apply(Try, O);
    if (E == -2) {
      continue;
    }
    H += O.Txt + (Mine ? " (own node); " : "; ");
    begin(std::string("copy_") + What[O.K], H);
    Ret R = call(T, O);
    if (R.Has) {
      expect(R.Ok == (E == -1) && (R.Ok || R.E == E), "result of " + O.Txt + " is not " + std::to_string(E));
    }
    if (E == -1) {
      M = Try;
    }
    expect_eq(mini(*Own).dump(), M.dump(), "model of the transaction");
    expect_eq(mini(FM).dump(), Before, "the original model");
  }
  if (coin(25)) {
    begin("copy_abort", H + "abort");
    T.abort();
  } else {
    begin("copy_commit", H + "commit");
    auto R = T.commit();
    if (expect((bool)R == M.consistent(), "commit does not tell whether the model is consistent") && R) {
      auto New = R.extractValue();
      expect(New.get() == Own, "commit hands out another model");
      expect_eq(mini(*New).dump(), M.dump(), "the committed model");
    } else if (!R) {
      expect(R.getError() == ABORTED, "failed commit does not report ABORTED");
    }
  }
  expect(!T.isUncommitted(), "transaction is still open");
  auto R2 = T.commit();
  expect(!R2 && R2.getError() == ABORTED, "commit of a closed transaction does not report ABORTED");
  expect_eq(mini(FM).dump(), Before, "the original model");
}

static void helpers() {
  FeatureModel FM;
  if (!start(FM)) {
    return;
  }
  RefModel Orig = read(FM);
  Mini M = mini(FM);
  std::string H = "on " + M.dump() + ": ";
  int W = rnd(6);
  if (W == 5) {
    std::vector<std::pair<std::unique_ptr<Feature>, Feature *>> V;
    begin("addFeatures", H);
    bool Ok = true;
    for (size_t I = 0, N = rnd(5); I < N; ++I) {
      Op O;
      O.K = 0;
      O.Name = coin(10) ? nname(Orig, choose(Orig, 1)) : freshName(Orig);
      O.Par = coin(70) ? llvm::cast_or_null<Feature>(choose(Orig, 1)) : nullptr;
      H += "add " + O.Name + "; ";
      V.emplace_back(std::make_unique<BinaryFeature>(O.Name, true), O.Par);
      Ok = Ok && apply(M, O) == -1;
    }
    begin("addFeatures", H);
    vara::feature::addFeatures(FM, std::move(V));
  } else {
    Op O;
    do {
      O = randOp(Orig, M, true);
    } while (O.K > 3 && O.K != 8);
    begin(std::string("helper_") + What[O.K], H + O.Txt);
    Mini Try = M;
    int E = apply(Try, O);
    if (E == -2) {
      return;
    }
    M = E == -1 ? Try : M;
    switch (O.K) {
    case 0:
      vara::feature::addFeature(FM, std::make_unique<BinaryFeature>(O.Name, true), O.Par);
      break;
    case 1:
      vara::feature::addRelationship(FM, O.V, (RKind)O.Kind);
      break;
    case 2:
      vara::feature::removeFeature(FM, O.V, O.Rec);
      break;
    case 3:
      vara::feature::removeRelationship(FM, O.V);
      break;
    default:
      vara::feature::setCommit(FM, O.Name);
    }
  }
  expect_eq(mini(FM).dump(), M.dump(), "model afterwards");
}

int main(int argc, char **argv) {
  init(argc, argv);
  while (more()) {
    modify();
    copying();
    helpers();
  }
  finish();
}
