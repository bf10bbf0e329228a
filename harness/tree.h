// Independent abstract syntax for constraints (the oracle side of the harnesses).
#pragma once
#include "harness.h"
#include "vara/Feature/Constraint.h"
#include "vara/Feature/Feature.h"
#include "llvm/Support/Casting.h"

namespace hn {
using namespace vara::feature;
using CK = Constraint::ConstraintKind;

struct Tree;
using TP = std::shared_ptr<Tree>;
struct Tree {
  CK K;
  TP L, R;
  int64_t V = 0;
  std::string N;
};

struct OpInfo {
  CK K;
  const char *Txt;
};
inline const std::vector<OpInfo> &binops() {
  static const std::vector<OpInfo> B = {
      {CK::CK_OR, "|"},           {CK::CK_XOR, "^"},
      {CK::CK_AND, "&"},          {CK::CK_EQUAL, "="},
      {CK::CK_NOT_EQUAL, "!="},   {CK::CK_IMPLIES, "=>"},
      {CK::CK_EXCLUDES, "=> !"},  {CK::CK_EQUIVALENCE, "<=>"},
      {CK::CK_ADDITION, "+"},     {CK::CK_SUBTRACTION, "-"},
      {CK::CK_MULTIPLICATION, "*"}, {CK::CK_DIVISION, "/"},
      {CK::CK_LESS, "<"},         {CK::CK_GREATER, ">"},
      {CK::CK_LESS_EQUAL, "<="},  {CK::CK_GREATER_EQUAL, ">="}};
  return B;
}
inline const char *optxt(CK K) {
  for (auto &B : binops()) {
    if (B.K == K) {
      return B.Txt;
    }
  }
  return nullptr;
}
inline bool isbin(CK K) { return optxt(K) != nullptr; }
inline bool isun(CK K) { return K == CK::CK_NOT || K == CK::CK_NEG; }

inline TP mk(CK K, TP L, TP R) {
  auto T = std::make_shared<Tree>();
  T->K = K;
  T->L = L;
  T->R = R;
  return T;
}
inline TP mkun(CK K, TP L) { return mk(K, L, nullptr); }
inline TP mkint(int64_t V) {
  auto T = mk(CK::CK_INTEGER, nullptr, nullptr);
  T->V = V;
  return T;
}
inline TP mkfeat(const std::string &N) {
  auto T = mk(CK::CK_FEATURE, nullptr, nullptr);
  T->N = N;
  return T;
}

// the documented concrete syntax: fully parenthesised infix
inline std::string show(const TP &T) {
  if (T->K == CK::CK_INTEGER) {
    return std::to_string(T->V);
  }
  if (T->K == CK::CK_FEATURE) {
    return T->N;
  }
  if (isun(T->K)) {
    return (T->K == CK::CK_NOT ? "!" : "~") + show(T->L);
  }
  if (T->K == CK::CK_EXCLUDES) {
    return "(" + show(T->L) + " => !" + show(T->R) + ")";
  }
  return "(" + show(T->L) + " " + optxt(T->K) + " " + show(T->R) + ")";
}
// structural text that does not depend on the library's spelling
inline std::string dump(const TP &T) {
  if (!T) {
    return "null";
  }
  if (T->K == CK::CK_INTEGER) {
    return std::to_string(T->V);
  }
  if (T->K == CK::CK_FEATURE) {
    return "'" + T->N + "'";
  }
  std::string S = "[" + std::to_string((int)T->K) + " " + dump(T->L);
  if (T->R) {
    S += " " + dump(T->R);
  }
  return S + "]";
}

template <typename C>
std::unique_ptr<Constraint> build2(std::unique_ptr<Constraint> L,
                                   std::unique_ptr<Constraint> R) {
  return std::make_unique<C>(std::move(L), std::move(R));
}

// owner: how feature leaves are made
using LeafFn = std::function<std::unique_ptr<Constraint>(const std::string &)>;
inline std::unique_ptr<Constraint> ownedLeaf(const std::string &N) {
  return std::make_unique<PrimaryFeatureConstraint>(
      std::make_unique<Feature>(N));
}

inline std::unique_ptr<Constraint> make(const TP &T,
                                        const LeafFn &Leaf = ownedLeaf) {
  switch (T->K) {
  case CK::CK_INTEGER:
    return std::make_unique<PrimaryIntegerConstraint>(T->V);
  case CK::CK_FEATURE:
    return Leaf(T->N);
  case CK::CK_NOT:
    return std::make_unique<NotConstraint>(make(T->L, Leaf));
  case CK::CK_NEG:
    return std::make_unique<NegConstraint>(make(T->L, Leaf));
  default:
    break;
  }
  auto L = make(T->L, Leaf);
  auto R = make(T->R, Leaf);
  switch (T->K) {
#define HN_B(KIND, CLS)                                                        \
  case CK::KIND:                                                               \
    return build2<CLS>(std::move(L), std::move(R));
    HN_B(CK_OR, OrConstraint)
    HN_B(CK_XOR, XorConstraint)
    HN_B(CK_AND, AndConstraint)
    HN_B(CK_EQUAL, EqualConstraint)
    HN_B(CK_NOT_EQUAL, NotEqualConstraint)
    HN_B(CK_IMPLIES, ImpliesConstraint)
    HN_B(CK_EXCLUDES, ExcludesConstraint)
    HN_B(CK_EQUIVALENCE, EquivalenceConstraint)
    HN_B(CK_ADDITION, AdditionConstraint)
    HN_B(CK_SUBTRACTION, SubtractionConstraint)
    HN_B(CK_MULTIPLICATION, MultiplicationConstraint)
    HN_B(CK_DIVISION, DivisionConstraint)
    HN_B(CK_LESS, LessConstraint)
    HN_B(CK_GREATER, GreaterConstraint)
    HN_B(CK_LESS_EQUAL, LessEqualConstraint)
    HN_B(CK_GREATER_EQUAL, GreaterEqualConstraint)
#undef HN_B
  default:
    abort();
  }
}

// reads a real constraint back, by dynamic class (not by its kind tag)
inline TP readback(const Constraint *C, std::string *Problem = nullptr,
                   const Constraint *Parent = nullptr) {
  if (!C) {
    return nullptr;
  }
  if (Problem && const_cast<Constraint *>(C)->getParent() != Parent) {
    *Problem += "parent link of " + C->toString() + " is wrong; ";
  }
  if (auto *B = dynamic_cast<const BinaryConstraint *>(C)) {
    CK K = CK::CK_BINARY;
#define HN_D(KIND, CLS)                                                        \
  if (dynamic_cast<const CLS *>(C)) {                                          \
    K = CK::KIND;                                                              \
  }
    HN_D(CK_OR, OrConstraint)
    HN_D(CK_XOR, XorConstraint)
    HN_D(CK_AND, AndConstraint)
    HN_D(CK_EQUAL, EqualConstraint)
    HN_D(CK_NOT_EQUAL, NotEqualConstraint)
    HN_D(CK_IMPLIES, ImpliesConstraint)
    HN_D(CK_EXCLUDES, ExcludesConstraint)
    HN_D(CK_EQUIVALENCE, EquivalenceConstraint)
    HN_D(CK_ADDITION, AdditionConstraint)
    HN_D(CK_SUBTRACTION, SubtractionConstraint)
    HN_D(CK_MULTIPLICATION, MultiplicationConstraint)
    HN_D(CK_DIVISION, DivisionConstraint)
    HN_D(CK_LESS, LessConstraint)
    HN_D(CK_GREATER, GreaterConstraint)
    HN_D(CK_LESS_EQUAL, LessEqualConstraint)
    HN_D(CK_GREATER_EQUAL, GreaterEqualConstraint)
#undef HN_D
    if (Problem && K != C->getKind()) {
      *Problem += "kind tag does not match the class; ";
    }
    return mk(K, readback(B->getLeftOperand(), Problem, C),
              readback(B->getRightOperand(), Problem, C));
  }
  if (auto *U = dynamic_cast<const UnaryConstraint *>(C)) {
    CK K = dynamic_cast<const NotConstraint *>(C)   ? CK::CK_NOT
           : dynamic_cast<const NegConstraint *>(C) ? CK::CK_NEG
                                                    : CK::CK_UNARY;
    if (Problem && K != C->getKind()) {
      *Problem += "kind tag does not match the class; ";
    }
    return mkun(K, readback(const_cast<UnaryConstraint *>(U)->getOperand(), Problem, C));
  }
  if (auto *I = dynamic_cast<const PrimaryIntegerConstraint *>(C)) {
    if (Problem && C->getKind() != CK::CK_INTEGER) {
      *Problem += "kind tag does not match the class; ";
    }
    return mkint(I->getValue());
  }
  if (auto *F = dynamic_cast<const PrimaryFeatureConstraint *>(C)) {
    if (Problem && C->getKind() != CK::CK_FEATURE) {
      *Problem += "kind tag does not match the class; ";
    }
    return mkfeat(F->getFeature() ? F->getFeature()->getName().str()
                                  : "<null>");
  }
  return mk(CK::CK_PRIMARY, nullptr, nullptr);
}
inline bool same(const TP &A, const TP &B) { return dump(A) == dump(B); }

inline void nodes(const Constraint *C, std::vector<const void *> &Out) {
  if (!C) {
    return;
  }
  Out.push_back(C);
  if (auto *B = dynamic_cast<const BinaryConstraint *>(C)) {
    nodes(B->getLeftOperand(), Out);
    nodes(B->getRightOperand(), Out);
  } else if (auto *U = dynamic_cast<const UnaryConstraint *>(C)) {
    nodes(const_cast<UnaryConstraint *>(U)->getOperand(), Out);
  }
}
inline void leafFeatures(const Constraint *C, std::vector<Feature *> &Out) {
  if (auto *B = dynamic_cast<const BinaryConstraint *>(C)) {
    leafFeatures(B->getLeftOperand(), Out);
    leafFeatures(B->getRightOperand(), Out);
  } else if (auto *U = dynamic_cast<const UnaryConstraint *>(C)) {
    leafFeatures(const_cast<UnaryConstraint *>(U)->getOperand(), Out);
  } else if (auto *F = dynamic_cast<const PrimaryFeatureConstraint *>(C)) {
    Out.push_back(F->getFeature());
  }
}

// ------------------------------------------------------------- generation
struct Gen {
  std::vector<std::string> Names = {"A", "B", "Foo", "b_1", "zz9", "C"};
  std::vector<CK> Bin, Un = {CK::CK_NOT, CK::CK_NEG};
  int IntPct = 25;
  bool NegInts = true;
  Gen() {
    for (auto &B : binops()) {
      Bin.push_back(B.K);
    }
  }
  int64_t integer() const {
    static const int64_t Sp[] = {0,  1,  2,  7,  10, 42, 255, 65536, 1000000,
                                 2147483647LL, 2147483648LL, 4294967296LL,
                                 9223372036854775807LL};
    int64_t V = coin(60) ? (int64_t)rnd(100)
                         : Sp[rnd(sizeof(Sp) / sizeof(*Sp))];
    if (NegInts && coin(30)) {
      V = coin(5) ? INT64_MIN : -V;
    }
    return V;
  }
  TP leaf() const {
    if (coin(IntPct)) {
      return mkint(integer());
    }
    return mkfeat(Names[rnd(Names.size())]);
  }
  TP tree(int Depth) const {
    if (Depth <= 0 || coin(15)) {
      return leaf();
    }
    if (!Un.empty() && coin(30)) {
      return mkun(Un[rnd(Un.size())], tree(Depth - 1));
    }
    return mk(Bin[rnd(Bin.size())], tree(Depth - 1), tree(Depth - 1));
  }
  // every tree of one operator over leaves and over one-operator children
  std::vector<TP> systematic() const {
    std::vector<TP> One;
    TP A = mkfeat(Names[0]), B = mkfeat(Names[1 % Names.size()]),
       N = mkint(7), M = mkint(NegInts ? -3 : 3);
    for (CK K : Bin) {
      One.push_back(mk(K, A, B));
      One.push_back(mk(K, N, A));
      One.push_back(mk(K, M, N));
    }
    for (CK K : Un) {
      One.push_back(mkun(K, A));
      One.push_back(mkun(K, N));
      One.push_back(mkun(K, M));
    }
    std::vector<TP> Out = {A, B, N, M};
    Out.insert(Out.end(), One.begin(), One.end());
    TP C = mkfeat(Names[2 % Names.size()]);
    for (TP &O : One) {
      for (CK K : Bin) {
        Out.push_back(mk(K, O, C));
        Out.push_back(mk(K, C, O));
      }
      for (CK K : Un) {
        Out.push_back(mkun(K, O));
      }
    }
    return Out;
  }
};
} // namespace hn
