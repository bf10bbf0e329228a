// C04: the lexer of constraint texts
#include "ctok.h"
using namespace hn;
using namespace vara::feature;

static void check(const std::string &T, const char *Key) {
  begin(Key, T);
  std::vector<Tok> G;
  for (auto &X : ConstraintLexer(T).tokenize()) {
    auto V = X.getValue();
    bool Need = X.getKind() == TKind::IDENTIFIER || X.getKind() == TKind::NUMBER || X.getKind() == TKind::ERROR;
    if (V.has_value() != Need) {
      fail("a token carries text exactly if it is an identifier, a number or an error");
    }
    G.push_back({X.getKind(), V.has_value() ? *V : std::string()});
  }
  auto W = lexc(T);
  if (!(G == W)) {
    fail("tokens " + dump(G) + ", expected " + dump(W));
  }
}

int main(int C, char **V) {
  init(C, V);
  check("", "empty");
  for (int A = 0; A < 256; ++A) {
    check(std::string(1, (char)A), "char");
    for (int B = 0; B < 256; ++B) {
      check(std::string(1, (char)A) + (char)B, "pair");
    }
  }
  for (auto &A : fragments()) {
    for (auto &B : fragments()) {
      check(A + B, "fragments");
      check(A + " " + B, "fragments");
      for (auto &D : fragments()) {
        check(A + B + D, "fragments");
      }
    }
  }
  while (more()) {
    check(soup(coin(5) ? 200 : 12), "random");
  }
  finish();
}
