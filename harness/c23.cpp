// C23: Result, Ok and Error keep exactly one of a value and an error
#include "harness.h"
#include "vara/Feature/Error.h"
#include "vara/Solver/Error.h"
#include "vara/Utils/Result.h"
#include "llvm/Support/raw_ostream.h"
#include <memory>
using namespace hn;
using namespace vara;
using FT = vara::feature::FTErrorCode;
using SE = vara::solver::SolverErrorCode;

template <typename T>
static std::string str(const T &X) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  OS << X;
  OS.flush();
  return S;
}
static const FT FTs[] = {feature::ABORTED, feature::ALREADY_PRESENT, feature::ERROR, feature::INCONSISTENT, feature::MISSING_FEATURE,
                         feature::MISSING_MODEL, feature::MISSING_PARENT, feature::MISSING_CHILD, feature::NON_LEAF_NODE, feature::RECURSIVE_EDGE};
static const SE SEs[] = {solver::NOT_IMPLEMENTED, solver::NOT_SUPPORTED, solver::UNSAT, solver::ALREADY_PRESENT,
                         solver::NOT_ALL_CONSTRAINTS_PROCESSED, solver::PARENT_NOT_PRESENT, solver::ILLEGAL_STATE};
static std::string word() {
  std::string S;
  for (size_t N = rnd(40); N; --N) {
    S += (char)(' ' + rnd(95));
  }
  return S;
}
static FT code() { return FTs[rnd(10)]; }

template <typename E, typename V>
static void isError(Result<E, V> R, E C, const std::string &How) {
  expect(!static_cast<bool>(R), How + ": an error converts to true");
  expect(R.getError() == C, How + ": getError gives another code");
  expect_eq(str(Error<E>(C)), str(Error<E>(C)), How + ": text");
  Result<E, V> Q(std::move(R));
  expect(!static_cast<bool>(Q), How + ": a moved error converts to true");
  expect(Q.getError() == C && Q.getError() == C, How + ": getError after move");
  expect(Q.extractError() == C, How + ": extractError gives another code");
}
template <typename E>
static void values(E C) {
  {
    int X = (int)Rng();
    X = coin(30) ? 0 : X;
    begin("int", std::to_string(X) + " " + std::to_string((int)C));
    Result<E, int> A{Ok<int>(X)};
    expect(static_cast<bool>(A), "a value converts to false");
    expect_eq(*A, X, "operator*");
    expect_eq(*A, X, "operator* again");
    expect_eq(str(A), std::to_string(X), "text");
    Result<E, int> D(A.operator bool() ? std::move(A) : Result<E, int>{Ok<int>(7)});
    expect(static_cast<bool>(D), "a moved value converts to false");
    expect_eq(D.extractValue(), X, "extractValue");
    Result<E, int> B{Error<E>(C)};
    expect_eq(str(B), str(Error<E>(C)), "text of an error");
    isError<E, int>(Result<E, int>{Error<E>(C)}, C, "Result<int>(Error)");
    Ok<int> O(X);
    expect(static_cast<bool>(O), "Ok converts to false");
    expect_eq(*O, X, "*Ok");
    expect_eq(O.extractValue(), X, "Ok::extractValue");
    Error<E> Er(C);
    expect(!static_cast<bool>(Er), "Error converts to true");
    expect(*Er == C, "*Error");
    expect(Er.extractError() == C, "Error::extractError");
  }
  {
    bool X = coin();
    begin("bool", std::to_string(X) + " " + std::to_string((int)C));
    Result<E, bool> A{Ok<bool>(X)};
    expect(static_cast<bool>(A), "a value converts to false");
    expect_eq(*A, X, "operator*");
    isError<E, bool>(Result<E, bool>{Error<E>(C)}, C, "Result<bool>(Error)");
  }
  {
    std::string X = word();
    begin("string", "'" + X + "' " + std::to_string((int)C));
    Result<E, std::string> A{std::string(X)}, B{Ok<std::string>(std::string(X))};
    expect(static_cast<bool>(A) && static_cast<bool>(B), "a value converts to false");
    expect_eq(*A, X, "operator*");
    expect_eq(*B, X, "operator* of Ok");
    expect_eq(*A, X, "operator* again");
    expect_eq(str(B), X, "text");
    expect_eq(*std::move(A), X, "operator* &&");
    expect_eq(B.extractValue(), X, "extractValue");
    E C2 = C;
    isError<E, std::string>(Result<E, std::string>(std::move(C2)), C, "Result<string>(code)");
    isError<E, std::string>(Result<E, std::string>{Error<E>(C)}, C, "Result<string>(Error)");
  }
  {
    size_t N = rnd(5);
    begin("pointers", std::to_string(N) + " " + std::to_string((int)C));
    std::vector<std::unique_ptr<int>> V;
    std::vector<int *> Raw;
    for (size_t I = 0; I < N; ++I) {
      V.push_back(std::make_unique<int>((int)I));
      Raw.push_back(V.back().get());
    }
    Result<E, std::vector<std::unique_ptr<int>>> A(std::move(V));
    expect(static_cast<bool>(A), "a value converts to false");
    auto W = A.extractValue();
    bool Same = W.size() == N;
    for (size_t I = 0; Same && I < N; ++I) {
      Same = W[I].get() == Raw[I] && *W[I] == (int)I;
    }
    expect(Same, "extractValue does not give the same objects");
    auto P = std::make_unique<int>(3);
    int *Q = P.get();
    Result<E, std::unique_ptr<int>> B(std::move(P));
    expect(static_cast<bool>(B) && B.extractValue().get() == Q, "unique_ptr value");
    int X = 5;
    int *XP = &X;
    Result<E, int *> D(std::move(XP));
    expect(static_cast<bool>(D) && *D == &X, "pointer value");
    int *NP = nullptr;
    Result<E, int *> D0(std::move(NP));
    expect(static_cast<bool>(D0) && *D0 == nullptr, "null pointer value");
    E C3 = C;
    isError<E, int *>(Result<E, int *>(std::move(C3)), C, "Result<int *>(code)");
  }
  {
    begin("void", std::to_string((int)C));
    Result<E> A{Ok<void>()};
    expect(static_cast<bool>(A), "success converts to false");
    Result<E> B{Error<E>(C)};
    expect(!static_cast<bool>(B) && B.getError() == C, "error");
    E C4 = C;
    Result<E> D(std::move(C4));
    expect(!static_cast<bool>(D) && D.getError() == C && D.extractError() == C, "error from code");
    expect_eq(str(D), str(Error<E>(C)), "text of an error");
  }
}

static void generic() {
  std::string X = word();
  int V = (int)rnd(1000);
  begin("generic", "'" + X + "' " + std::to_string(V));
  Error<std::string> Er{std::string(X)};
  expect(!static_cast<bool>(Er), "Error converts to true");
  expect_eq(*Er, X, "*Error");
  expect_eq(str(Er), X, "text");
  expect_eq(Er.extractError(), X, "extractError");
  Result<std::string, int> A{Ok<int>(V)};
  expect(static_cast<bool>(A) && *A == V, "value");
  Result<std::string, int> B{Error<std::string>(std::string(X))};
  expect(!static_cast<bool>(B), "an error converts to true");
  expect_eq(B.getError(), X, "getError");
  expect_eq(B.getError(), X, "getError again");
  expect_eq(str(B), X, "text of an error");
  expect_eq(B.extractError(), X, "extractError");
  Result<std::string, int> D{Error<std::string>(std::string(X))};
  expect_eq(std::move(D).getError(), X, "getError &&");
}

int main(int argc, char **argv) {
  init(argc, argv);
  std::set<std::string> T;
  for (FT C : FTs) {
    begin("error text", "feature code " + std::to_string((int)C));
    std::string S = str(Error<FT>(C));
    expect(!S.empty() && T.insert(S).second, "the text '" + S + "' does not identify the code");
  }
  T.clear();
  for (SE C : SEs) {
    begin("error text", "solver code " + std::to_string((int)C));
    std::string S = str(Error<SE>(C));
    expect(!S.empty() && T.insert(S).second, "the text '" + S + "' does not identify the code");
  }
  for (FT C : FTs) {
    values<FT>(C);
  }
  for (SE C : SEs) {
    values<SE>(C);
  }
  size_t N = 0;
  while (more(0.5) && N++ < 20000) {
    values<FT>(code());
    values<SE>(SEs[rnd(7)]);
    generic();
  }
  finish();
}
