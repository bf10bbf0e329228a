// C02: text and HTML form of constraints
#include "tree.h"
using namespace hn;

static std::string unescape(const std::string &S, std::string &Bad) {
  static const std::pair<const char *, char> E[] = {
      {"&amp;", '&'},  {"&lt;", '<'},   {"&gt;", '>'},
      {"&quot;", '"'}, {"&apos;", '\''}, {"&#39;", '\''}};
  std::string R;
  for (size_t I = 0; I < S.size();) {
    if (S[I] == '<' || S[I] == '>') {
      Bad = "unescaped character";
    }
    if (S[I] == '&') {
      bool Ok = false;
      for (auto &X : E) {
        if (S.compare(I, strlen(X.first), X.first) == 0) {
          R += X.second;
          I += strlen(X.first);
          Ok = true;
          break;
        }
      }
      if (Ok) {
        continue;
      }
      Bad = "unescaped ampersand";
    }
    R += S[I++];
  }
  return R;
}

static void check(const TP &T) {
  begin("print", dump(T));
  auto C = make(T);
  expect_eq(C->toString(), show(T), "text form");
  std::string Bad, H = C->toHTML();
  expect_eq(unescape(H, Bad), show(T), "HTML form '" + H + "' stands for");
  expect(Bad.empty(), "HTML form '" + H + "': " + Bad);
  expect_eq(C->toString(), show(T), "text form on second use");
  expect_eq(C->clone()->toString(), show(T), "text form of the clone");
}

int main(int argc, char **argv) {
  init(argc, argv);
  Gen G;
  G.Names.push_back("x");
  for (auto &T : G.systematic()) {
    check(T);
  }
  Gen H = G;
  H.Names = {"a<b>", "R&D", "\"q\"", "", " ", "{0}", "{1}", "{{", "0", "ümlaut"};
  for (auto &T : H.systematic()) {
    check(T);
  }
  while (more()) {
    check((coin(80) ? G : H).tree(1 + rnd(8)));
  }
  finish();
}
