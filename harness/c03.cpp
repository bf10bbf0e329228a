// C03: the parser of constraint texts
#include "ctok.h"
#include "tree.h"
#include <cmath>
using namespace hn;

// the grammar by levels, from loosest to tightest; operators associate to the left
struct Oracle {
  std::vector<Tok> T;
  size_t I = 0;
  explicit Oracle(const std::string &S) {
    for (auto &X : lexc(S)) {
      if (X.K != TKind::WHITESPACE) {
        T.push_back(X);
      }
    }
  }
  static int64_t number(const std::string &S) {
    std::string D = S;
    if (S.find('e') != std::string::npos) {
      char *E = nullptr;
      double V = strtod(S.c_str(), &E);
      if (*E == 'e' && S.find('e') == (size_t)(E - S.c_str())) { // an exponent without digits counts as zero
        E += E[1] == '+' || E[1] == '-' ? 2 : 1;
      }
      if (*E || std::isinf(V)) {
        return INT64_MAX;
      }
      char B[400];
      snprintf(B, sizeof(B), "%.0f", V);
      D = B;
    }
    unsigned __int128 V = 0;
    for (char C : D) {
      V = V * 10 + (C - '0');
      if (V > (unsigned __int128)INT64_MAX) {
        return INT64_MAX;
      }
    }
    return (int64_t)V;
  }
  TP unary() {
    auto &X = T[I];
    switch (X.K) {
    case TKind::NOT:
    case TKind::NEG: {
      ++I;
      auto S = unary();
      return S ? mkun(X.K == TKind::NOT ? CK::CK_NOT : CK::CK_NEG, S) : nullptr;
    }
    case TKind::L_PAR: {
      ++I;
      auto S = level(0);
      if (!S || T[I].K != TKind::R_PAR) {
        return nullptr;
      }
      ++I;
      return S;
    }
    case TKind::NUMBER:
      ++I;
      return mkint(number(X.V));
    case TKind::IDENTIFIER:
      ++I;
      return mkfeat(X.V);
    default:
      return nullptr;
    }
  }
  TP level(size_t N) {
    static const std::vector<std::vector<std::pair<TKind, CK>>> L = {
        {{TKind::EQUIVALENT, CK::CK_EQUIVALENCE}},
        {{TKind::IMPLIES, CK::CK_IMPLIES}},
        {{TKind::OR, CK::CK_OR}},
        {{TKind::AND, CK::CK_AND}},
        {{TKind::EQUAL, CK::CK_EQUAL}, {TKind::NOT_EQUAL, CK::CK_NOT_EQUAL}},
        {{TKind::LESS, CK::CK_LESS}, {TKind::LESS_EQUAL, CK::CK_LESS_EQUAL}, {TKind::GREATER, CK::CK_GREATER}, {TKind::GREATER_EQUAL, CK::CK_GREATER_EQUAL}},
        {{TKind::PLUS, CK::CK_ADDITION}, {TKind::MINUS, CK::CK_SUBTRACTION}},
        {{TKind::STAR, CK::CK_MULTIPLICATION}}};
    if (N == L.size()) {
      return unary();
    }
    auto A = level(N + 1);
    while (A) {
      const std::pair<TKind, CK> *O = nullptr;
      for (auto &P : L[N]) {
        if (P.first == T[I].K) {
          O = &P;
        }
      }
      if (!O) {
        return A;
      }
      ++I;
      auto B = level(N + 1);
      A = B ? mk(O->second, A, B) : nullptr;
    }
    return nullptr;
  }
  TP all() {
    auto R = level(0);
    return R && T[I].K == TKind::END_OF_FILE ? R : nullptr;
  }
};

static void check(const std::string &T, const char *Key) {
  for (auto &X : lexc(T)) {
    if (X.K == TKind::NUMBER && X.V.find('e') != std::string::npos && X.V.size() > 16) {
      return; // LLVM stops reading oversized exponents early
    }
  }
  begin(Key, T);
  auto W = Oracle(T).all();
  auto C = ConstraintParser(T).buildConstraint();
  std::string P;
  auto G = readback(C.get(), &P);
  if (!P.empty()) {
    fail(P);
  }
  if (dump(G) != dump(W)) {
    fail("parsed as " + dump(G) + ", expected " + dump(W));
  }
  auto C2 = ConstraintParser(T, 3).buildConstraint();
  if (dump(readback(C2.get())) != dump(W)) {
    fail("with a line: parsed as " + dump(readback(C2.get())) + ", expected " + dump(W));
  }
}

static std::string sp() {
  static const char *S[] = {" ", "\t", "\n", "  "};
  return coin(60) ? "" : S[rnd(4)];
}
static std::string gen(int D) {
  static const std::vector<std::string> Ops = {"+", "-", "*", "&", "|", "=", "!=", "<", ">", "<=", ">=", "->", "=>", "<->", "<=>", " or "};
  static const std::vector<std::string> Leaf = {"a", "b", "foo_1", "B", "1", "42", "0", "1e2", "9223372036854775807", "9223372036854775808", "15e-1"};
  if (D <= 0 || coin(20)) {
    return sp() + Leaf[rnd(Leaf.size())] + sp();
  }
  size_t K = rnd(10);
  if (K == 0) {
    return sp() + "!" + gen(D - 1);
  }
  if (K == 1) {
    return sp() + "~" + gen(D - 1);
  }
  if (K <= 3) {
    return sp() + "(" + gen(D - 1) + ")" + sp();
  }
  return gen(D - 1) + Ops[rnd(Ops.size())] + gen(D - 1);
}

int main(int C, char **V) {
  init(C, V);
  llvm::errs().SetUnbuffered();
  FILE *Null = freopen("/dev/null", "w", stderr);
  (void)Null;
  check("", "short");
  auto &F = fragments();
  for (auto &A : F) {
    check(A, "short");
    for (auto &B : F) {
      check(A + B, "short");
    }
  }
  static const char *Ops[] = {"+", "-", "*", "&", "|", "=", "!=", "<", ">", "<=", ">=", "->", "=>", "<->", "<=>", " or "};
  for (auto *A : Ops) {
    for (auto *B : Ops) {
      for (const char *U : {"", "!", "~"}) {
        check(std::string("a") + A + U + "b" + B + "c", "operators");
        check(std::string("a") + A + "(b" + B + U + "c)", "operators");
        check(std::string("a") + A + U + "(b" + B + "c)", "operators");
        check(std::string("(a") + A + U + "b)" + B + "c", "operators");
        check(std::string("a") + A + "b" + B + "c)", "operators");
        check(std::string("(a") + A + "b" + B + "c", "operators");
        for (auto *D : Ops) {
          check(std::string("a") + A + U + "b" + B + "c" + D + "d", "operators");
        }
      }
    }
  }
  while (more()) {
    if (coin(75)) {
      auto T = gen(1 + rnd(6));
      if (coin(25) && !T.empty()) {
        size_t P = rnd(T.size());
        coin() ? (void)T.erase(P, 1) : (void)T.insert(P, F[rnd(F.size())]);
      }
      check(T, "generated");
    } else {
      check(soup(10), "random");
    }
  }
  finish();
}
