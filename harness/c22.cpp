// C22: source locations, member offsets, revision ranges and source ranges
#include "harness.h"
#include "vara/Feature/FeatureSourceRange.h"
#include <optional>
using namespace hn;
using namespace vara::feature;
using R = FeatureSourceRange;
using L = R::FeatureSourceLocation;
using M = R::FeatureMemberOffset;
using V = R::FeatureRevisionRange;
using Pos = std::pair<unsigned, unsigned>;

static unsigned num() {
  static const unsigned Pick[] = {0, 1, 2, 3, 9, 10, 11, 99, 100, 2147483647u, 2147483648u, 4294967295u};
  return coin(70) ? (unsigned)rnd(4) : Pick[rnd(12)];
}
static Pos pos() { return {num(), num()}; }
static std::string ptext(Pos P) {
  return std::to_string(P.first) + ":" + std::to_string(P.second);
}
static std::string offset() {
  static const char *Parts[] = {"::", ":", "A", "b", "Foo", "std", "", "x1", " ", "::", "::", ":::"};
  std::string S;
  for (size_t N = rnd(9); N; --N) {
    S += Parts[rnd(12)];
  }
  return S;
}
static std::vector<std::string> splitBy(const std::string &S) {
  std::vector<std::string> Out;
  size_t B = 0;
  for (;;) {
    size_t E = S.find("::", B);
    if (E == std::string::npos) {
      Out.push_back(S.substr(B));
      return Out;
    }
    Out.push_back(S.substr(B, E - B));
    B = E + 2;
  }
}

static void locations() {
  Pos A = pos(), B = coin(30) ? A : pos();
  begin("location", ptext(A) + " " + ptext(B));
  L X(A.first, A.second), Y(B.first, B.second);
  expect_eq(X == Y, A == B, "==");
  expect_eq(X < Y, A < B, "<");
  expect_eq(X > Y, A > B, ">");
  expect_eq(X.toString(), ptext(A), "text");
  expect_eq(X.getLineNumber(), A.first, "line");
  expect_eq(X.getColumnOffset(), A.second, "column");
  L Z(X);
  unsigned N = num();
  Z.setLineNumber(N);
  expect(Z.getLineNumber() == N && Z.getColumnOffset() == A.second, "setLineNumber");
  Z = X;
  Z.setColumnOffset(N);
  expect(Z.getLineNumber() == A.first && Z.getColumnOffset() == N, "setColumnOffset");
  expect(X == L(A.first, A.second), "the original is unchanged");
}

static bool offsetOk(const std::string &S, std::string &Cls, std::string &Mem) {
  size_t I = S.rfind("::");
  if (I == std::string::npos || I + 2 >= S.size()) {
    return false;
  }
  Cls = S.substr(0, I);
  Mem = S.substr(I + 2);
  return true;
}
static void offsets() {
  std::string S = offset(), C, N;
  begin("offset", S);
  bool Ok = offsetOk(S, C, N);
  expect_eq(M::isMemberOffsetFormat(S), Ok, "accepted format");
  auto O = M::createFeatureMemberOffset(S);
  if (!expect_eq(O.has_value(), Ok, "accepted") || !Ok) {
    return;
  }
  std::vector<std::string> Parts;
  if (!C.empty()) {
    Parts = splitBy(C);
  }
  expect_eq(O->memberName(), N, "member");
  expect_eq(O->className(), C, "class path");
  expect_eq(O->toString(), S, "text");
  expect_eq(O->nestingDepth(), Parts.size(), "depth");
  for (size_t I = 0; I < Parts.size(); ++I) {
    expect_eq(O->className(I), Parts[Parts.size() - 1 - I], "class at nesting " + std::to_string(I));
  }
  std::string S2 = coin(40) ? S : offset(), C2, N2;
  if (offsetOk(S2, C2, N2)) {
    begin("offset", S + " vs " + S2);
    auto O2 = M::createFeatureMemberOffset(S2);
    if (expect(O2.has_value(), "accepted")) {
      expect_eq(*O == *O2, S == S2, "==");
      expect_eq(*O != *O2, S != S2, "!=");
    }
  }
}

struct Spec {
  std::string Path;
  std::optional<Pos> S, E;
  bool Ness;
  std::optional<std::string> Off;
  std::optional<std::pair<std::string, std::optional<std::string>>> Rev;
  bool operator==(const Spec &O) const {
    return Path == O.Path && S == O.S && E == O.E && Ness == O.Ness && Off == O.Off;
  }
  std::string text() const {
    return Path + (S ? ":" + ptext(*S) : "") + (E ? "–" + ptext(*E) : "") + (Off ? " MemberOffset: " + *Off : "");
  }
};
static Spec spec() {
  static const char *Paths[] = {"", "a.cpp", "src/a.cpp", "b.h", "/x/y z.cpp"};
  static const char *Offs[] = {"A::b", "A::B::c", "::m", "A::c"};
  static const char *Revs[] = {"", "deadbeef", "v1.0"};
  Spec X;
  X.Path = Paths[rnd(5)];
  if (coin(70)) {
    X.S = pos();
  }
  if (coin(70)) {
    X.E = pos();
  }
  X.Ness = coin();
  if (coin(40)) {
    X.Off = Offs[rnd(4)];
  }
  if (coin(40)) {
    X.Rev.emplace(Revs[rnd(3)], std::nullopt);
    if (coin()) {
      X.Rev->second = Revs[rnd(3)];
    }
  }
  return X;
}
static R make(const Spec &X) {
  std::optional<L> S, E;
  if (X.S) {
    S.emplace(X.S->first, X.S->second);
  }
  if (X.E) {
    E.emplace(X.E->first, X.E->second);
  }
  std::optional<M> O;
  if (X.Off) {
    O = M::createFeatureMemberOffset(*X.Off);
  }
  std::optional<V> Rev;
  if (X.Rev) {
    Rev = X.Rev->second ? V(X.Rev->first, *X.Rev->second) : V(X.Rev->first);
  }
  auto C = X.Ness ? R::Category::necessary : R::Category::inessential;
  if (S && E && coin()) {
    return R(fs::path(X.Path), *S, *E, C, O, Rev);
  }
  return R(fs::path(X.Path), S, E, C, O, Rev);
}
static void check(R &A, const Spec &X, const char *W) {
  std::string P = W;
  expect_eq(A.getPath().string(), X.Path, P + "path");
  expect_eq(A.getCategory() == R::Category::necessary, X.Ness, P + "category");
  expect_eq(A.hasStart(), X.S.has_value(), P + "hasStart");
  expect_eq(A.hasEnd(), X.E.has_value(), P + "hasEnd");
  expect_eq(A.hasMemberOffset(), X.Off.has_value(), P + "hasMemberOffset");
  expect_eq(A.hasRevisionRange(), X.Rev.has_value(), P + "hasRevisionRange");
  expect_eq(A.getStart() != nullptr, X.S.has_value(), P + "getStart");
  expect_eq(A.getEnd() != nullptr, X.E.has_value(), P + "getEnd");
  expect_eq(A.getMemberOffset() != nullptr, X.Off.has_value(), P + "getMemberOffset");
  expect_eq(A.revisionRange() != nullptr, X.Rev.has_value(), P + "revisionRange");
  if (X.S && A.getStart()) {
    expect_eq(A.getStart()->toString(), ptext(*X.S), P + "start");
  }
  if (X.E && A.getEnd()) {
    expect_eq(A.getEnd()->toString(), ptext(*X.E), P + "end");
  }
  if (X.Off && A.getMemberOffset()) {
    expect_eq(A.getMemberOffset()->toString(), *X.Off, P + "member offset");
  }
  if (X.Rev && A.revisionRange()) {
    expect_eq(A.revisionRange()->introducingCommit().str(), X.Rev->first, P + "introducing commit");
    expect_eq(A.revisionRange()->hasRemovingCommit(), X.Rev->second.has_value(), P + "has removing commit");
    expect_eq(A.revisionRange()->removingCommit().str(), X.Rev->second.value_or(""), P + "removing commit");
  }
  expect_eq(A.toString(), X.text(), P + "text");
}
static void ranges() {
  Spec X = spec();
  Spec Y = coin() ? X : spec();
  if (coin()) { // differ in one part only
    Spec Z = spec();
    switch (rnd(5)) {
    case 0: Y.Path = Z.Path; break;
    case 1: Y.S = Z.S; break;
    case 2: Y.E = Z.E; break;
    case 3: Y.Ness = Z.Ness; break;
    case 4: Y.Off = Z.Off; break;
    }
  }
  Y.Rev = X.Rev;
  begin("range", X.text() + (X.Ness ? " n" : " i") + " vs " + Y.text() + (Y.Ness ? " n" : " i"));
  R A = make(X), B = make(Y);
  check(A, X, "");
  check(B, Y, "");
  expect_eq(A == B, X == Y, "==");
  expect_eq(B == A, X == Y, "== (swapped)");
  expect_eq(A != B, !(X == Y), "!=");
  R C(A);
  check(C, X, "copy: ");
  C = B;
  check(C, Y, "assigned: ");
  R D(std::move(C));
  check(D, Y, "moved: ");
  D.setPath("new/p");
  D.setCategory(Y.Ness ? R::Category::inessential : R::Category::necessary);
  Spec Z = Y;
  Z.Path = "new/p";
  Z.Ness = !Y.Ness;
  check(D, Z, "changed: ");
  if (D.hasStart()) {
    D.getStart()->setLineNumber(77);
    Z.S->first = 77;
    check(D, Z, "changed start: ");
  }
  check(B, Y, "source of the copy: ");
}

int main(int argc, char **argv) {
  init(argc, argv);
  while (more()) {
    watchdog(20);
    locations();
    offsets();
    ranges();
  }
  finish();
}
