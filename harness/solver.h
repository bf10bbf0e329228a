// Evaluates constraint trees over an assignment and enumerates the solver's answers (C14 to C17).
#pragma once
#include "tree.h"
#include "vara/Solver/Z3Solver.h"
#include <optional>

namespace hn {
using namespace vara::solver;
struct Asg {
  std::map<std::string, bool> B;
  std::map<std::string, int64_t> I;
  bool operator<(const Asg &O) const { return std::tie(B, I) < std::tie(O.B, O.I); }
  bool operator==(const Asg &O) const { return B == O.B && I == O.I; }
  std::string str() const {
    std::string S = "{";
    for (auto &P : B) {
      S += P.first + (P.second ? "=1 " : "=0 ");
    }
    for (auto &P : I) {
      S += P.first + "=" + std::to_string(P.second) + " ";
    }
    return S + "}";
  }
};
// names starting with a lower-case letter are binary features, others numeric
inline bool isnum(const std::string &N) { return N[0] >= 'A' && N[0] <= 'Z'; }
inline __int128 evalI(const TP &T, const Asg &A);
inline bool evalB(const TP &T, const Asg &A, bool M);
inline int sortOf(const TP &T, bool M) {
  switch (T->K) {
  case CK::CK_INTEGER:
    return 2;
  case CK::CK_FEATURE:
    return isnum(T->N) || M ? 2 : 1;
  case CK::CK_NOT:
    return sortOf(T->L, M) == 1 ? 1 : 0;
  case CK::CK_NEG:
    return sortOf(T->L, M) == 2 ? 2 : 0;
  case CK::CK_ADDITION:
  case CK::CK_SUBTRACTION:
  case CK::CK_MULTIPLICATION:
  case CK::CK_DIVISION:
    return sortOf(T->L, M) == 2 && sortOf(T->R, M) == 2 ? 2 : 0;
  case CK::CK_LESS:
  case CK::CK_LESS_EQUAL:
  case CK::CK_GREATER:
  case CK::CK_GREATER_EQUAL:
    return sortOf(T->L, M) == 2 && sortOf(T->R, M) == 2 ? 1 : 0;
  case CK::CK_EQUAL:
  case CK::CK_NOT_EQUAL:
    return sortOf(T->L, M) && sortOf(T->L, M) == sortOf(T->R, M) ? 1 : 0;
  default:
    return sortOf(T->L, M) == 1 && sortOf(T->R, M) == 1 ? 1 : 0;
  }
}
struct Undef {};
inline __int128 evalI(const TP &T, const Asg &A) {
  switch (T->K) {
  case CK::CK_INTEGER:
    return T->V;
  case CK::CK_FEATURE:
    return isnum(T->N) ? A.I.at(T->N) : A.B.at(T->N);
  case CK::CK_NEG:
    return -evalI(T->L, A);
  case CK::CK_ADDITION:
    return evalI(T->L, A) + evalI(T->R, A);
  case CK::CK_SUBTRACTION:
    return evalI(T->L, A) - evalI(T->R, A);
  case CK::CK_MULTIPLICATION:
    return evalI(T->L, A) * evalI(T->R, A);
  case CK::CK_DIVISION: {
    __int128 X = evalI(T->L, A), Y = evalI(T->R, A);
    if (Y == 0) {
      throw Undef();
    }
    __int128 R = X % Y;
    if (R < 0) {
      R += Y < 0 ? -Y : Y;
    }
    return (X - R) / Y;
  }
  default:
    abort();
  }
}
inline bool evalB(const TP &T, const Asg &A, bool M) {
  auto B = [&](const TP &X) { return evalB(X, A, M); };
  switch (T->K) {
  case CK::CK_FEATURE:
    return A.B.at(T->N);
  case CK::CK_NOT:
    return !B(T->L);
  case CK::CK_AND: {
    bool X = B(T->L), Y = B(T->R);
    return X && Y;
  }
  case CK::CK_OR: {
    bool X = B(T->L), Y = B(T->R);
    return X || Y;
  }
  case CK::CK_XOR:
    return B(T->L) != B(T->R);
  case CK::CK_IMPLIES: {
    bool X = B(T->L), Y = B(T->R);
    return !X || Y;
  }
  case CK::CK_EXCLUDES: {
    bool X = B(T->L), Y = B(T->R);
    return !(X && Y);
  }
  case CK::CK_EQUIVALENCE:
    return B(T->L) == B(T->R);
  case CK::CK_EQUAL:
    return sortOf(T->L, M) == 2 ? evalI(T->L, A) == evalI(T->R, A) : B(T->L) == B(T->R);
  case CK::CK_NOT_EQUAL:
    return sortOf(T->L, M) == 2 ? evalI(T->L, A) != evalI(T->R, A) : B(T->L) != B(T->R);
  case CK::CK_LESS:
    return evalI(T->L, A) < evalI(T->R, A);
  case CK::CK_LESS_EQUAL:
    return evalI(T->L, A) <= evalI(T->R, A);
  case CK::CK_GREATER:
    return evalI(T->L, A) > evalI(T->R, A);
  case CK::CK_GREATER_EQUAL:
    return evalI(T->L, A) >= evalI(T->R, A);
  default:
    abort();
  }
}
inline void names(const TP &T, std::set<std::string> &Out) {
  if (!T) {
    return;
  }
  if (T->K == CK::CK_FEATURE) {
    Out.insert(T->N);
  }
  names(T->L, Out);
  names(T->R, Out);
}
inline bool someOff(const TP &T, const Asg &A) {
  std::set<std::string> N;
  names(T, N);
  for (auto &X : N) {
    if (!isnum(X) && !A.B.at(X)) {
      return true;
    }
  }
  return false;
}
// what a configuration says about the named variables
inline Asg readConfig(vara::feature::Configuration &C, std::string *Problem) {
  Asg A;
  for (auto It = C.begin(); It != C.end(); ++It) {
    const auto &E = *It;
    auto N = E.getKey().str();
    if (auto B = E.getValue()->boolValue()) {
      A.B[N] = *B;
    } else if (auto I = E.getValue()->intValue()) {
      A.I[N] = *I;
    } else {
      *Problem += "option " + N + " has the value '" + E.getValue()->asString() + "'; ";
    }
  }
  return A;
}
// all answers of a solver, in order
inline std::vector<Asg> enumerate(Solver &S, size_t Max, std::string *Problem) {
  std::vector<Asg> R;
  while (true) {
    auto C = S.getNextConfiguration();
    if (!C) {
      if (C.getError() != SolverErrorCode::UNSAT) {
        *Problem += "enumeration ends with an error other than UNSAT; ";
      }
      return R;
    }
    auto Cfg = C.extractValue();
    R.push_back(readConfig(*Cfg, Problem));
    if (R.size() > Max) {
      *Problem += "more configurations than assignments; ";
      return R;
    }
  }
}
// all assignments over the variables
inline std::vector<Asg> assignments(const std::map<std::string, std::vector<int64_t>> &Vars) {
  std::vector<Asg> R = {Asg()};
  for (auto &P : Vars) {
    std::vector<Asg> N;
    for (auto &A : R) {
      std::set<int64_t> Vs(P.second.begin(), P.second.end());
      for (auto V : Vs) {
        Asg B = A;
        if (isnum(P.first)) {
          B.I[P.first] = V;
        } else {
          B.B[P.first] = V != 0;
        }
        N.push_back(B);
      }
    }
    R = N;
  }
  return R;
}
inline void compare(std::vector<Asg> Got, std::vector<Asg> Want) {
  std::sort(Got.begin(), Got.end());
  std::sort(Want.begin(), Want.end());
  for (size_t I = 1; I < Got.size(); ++I) {
    if (Got[I] == Got[I - 1]) {
      fail("configuration " + Got[I].str() + " is enumerated twice");
    }
  }
  for (auto &A : Got) {
    if (!std::binary_search(Want.begin(), Want.end(), A)) {
      fail("configuration " + A.str() + " is enumerated but not valid");
    }
  }
  for (auto &A : Want) {
    if (!std::binary_search(Got.begin(), Got.end(), A)) {
      fail("valid configuration " + A.str() + " is not enumerated");
    }
  }
}
// a random well-sorted tree
inline TP gen(int Sort, int D, bool M, const std::vector<std::string> &Bs, const std::vector<std::string> &Ns, bool Div = true) {
  auto sub = [&](int S) { return gen(S, D - 1, M, Bs, Ns, Div); };
  static const CK Bool[] = {CK::CK_AND, CK::CK_OR, CK::CK_XOR, CK::CK_IMPLIES, CK::CK_EXCLUDES, CK::CK_EQUIVALENCE, CK::CK_EQUAL, CK::CK_NOT_EQUAL};
  static const CK Rel[] = {CK::CK_LESS, CK::CK_LESS_EQUAL, CK::CK_GREATER, CK::CK_GREATER_EQUAL, CK::CK_EQUAL, CK::CK_NOT_EQUAL};
  static const CK Ari[] = {CK::CK_ADDITION, CK::CK_SUBTRACTION, CK::CK_MULTIPLICATION, CK::CK_DIVISION};
  if (Sort == 1) {
    if (!M && (D <= 0 || coin(15))) {
      return mkfeat(Bs[rnd(Bs.size())]);
    }
    if (D > 0 && coin(15)) {
      return mkun(CK::CK_NOT, sub(1));
    }
    bool CanRel = M || !Ns.empty();
    if (D > 1 && (!CanRel || coin(55))) {
      return mk(Bool[rnd(8)], sub(1), sub(1));
    }
    if (CanRel) {
      return mk(Rel[rnd(6)], sub(2), sub(2));
    }
    return mkfeat(Bs[rnd(Bs.size())]);
  }
  if (D <= 0 || coin(30)) {
    size_t K = rnd(3);
    if (K == 0 || (Ns.empty() && !M)) {
      return mkint((int64_t)rnd(9) - 3);
    }
    if (M && (K == 1 || Ns.empty())) {
      return mkfeat(Bs[rnd(Bs.size())]);
    }
    return mkfeat(Ns.empty() ? Bs[rnd(Bs.size())] : Ns[rnd(Ns.size())]);
  }
  if (coin(15)) {
    return mkun(CK::CK_NEG, sub(2));
  }
  CK A = Ari[rnd(4)];
  if (A == CK::CK_DIVISION) {
    if (!Div) {
      A = CK::CK_ADDITION;
    } else {
      return mk(A, sub(2), mkint(coin() ? 1 + rnd(4) : -1 - (int64_t)rnd(4)));
    }
  }
  return mk(A, sub(2), sub(2));
}
} // namespace hn
