// C21: step functions
#include "harness.h"
#include "vara/Feature/StepFunction.h"
#include "vara/Feature/StepFunctionParser.h"
#include <cmath>
#include <optional>
using namespace hn;
using namespace vara::feature;
using Op = StepFunction::StepOperation;

struct Spec {
  bool VarLeft;
  char O;
  double C;
  std::string Var;
};

static bool isA(char C) { return (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z'); }
static bool isD(char C) { return C >= '0' && C <= '9'; }

// operand operator operand, blanks anywhere between; NUL and 0xff end the text
static std::optional<Spec> parse(const std::string &T) {
  size_t I = 0;
  auto ws = [&] {
    while (I < T.size() && (T[I] == ' ' || T[I] == '\t' || T[I] == '\r' || T[I] == '\n')) {
      ++I;
    }
  };
  auto operand = [&](std::string &W, double &N, bool &Num) {
    ws();
    if (I >= T.size()) {
      return false;
    }
    size_t B = I;
    if (isA(T[I])) {
      while (I < T.size() && (isA(T[I]) || isD(T[I]) || T[I] == '_')) {
        ++I;
      }
      W = T.substr(B, I - B);
      Num = false;
      return true;
    }
    size_t Dots = 0, Digits = 0;
    while (I < T.size() && (isD(T[I]) || T[I] == '.')) {
      (T[I] == '.' ? Dots : Digits)++;
      ++I;
    }
    if (Dots > 1 || Digits == 0) {
      return false;
    }
    N = strtod(T.substr(B, I - B).c_str(), nullptr);
    Num = true;
    return true;
  };
  Spec R;
  std::string W1, W2;
  double N1 = 0, N2 = 0;
  bool B1 = false, B2 = false;
  if (!operand(W1, N1, B1)) {
    return std::nullopt;
  }
  ws();
  if (I >= T.size() || (T[I] != '+' && T[I] != '*' && T[I] != '^')) {
    return std::nullopt;
  }
  R.O = T[I++];
  if (!operand(W2, N2, B2)) {
    return std::nullopt;
  }
  ws();
  if (I < T.size() && T[I] != 0 && (unsigned char)T[I] != 0xff) {
    return std::nullopt;
  }
  if (B1 == B2) {
    return std::nullopt;
  }
  R.VarLeft = B2;
  R.C = B2 ? N2 : N1;
  R.Var = B2 ? W1 : W2;
  return R;
}
static double value(const Spec &S, double X) {
  double A = S.VarLeft ? X : S.C, B = S.VarLeft ? S.C : X;
  return S.O == '+' ? A + B : S.O == '*' ? A * B : std::pow(A, B);
}
static bool same(double A, double B) {
  return A == B || (std::isnan(A) && std::isnan(B)) ||
         std::fabs(A - B) <= 1e-12 * std::max(std::fabs(A), std::fabs(B));
}
static std::string fmt2(double D) {
  char B[400];
  snprintf(B, sizeof(B), "%.2f", D);
  return B;
}
static std::string text(const Spec &S) {
  std::string C = fmt2(S.C);
  return S.VarLeft ? S.Var + " " + S.O + " " + C : C + " " + S.O + " " + S.Var;
}
static void checkF(StepFunction &F, const Spec &S) {
  static const double Xs[] = {0, 1, -1, 2, 3.5, -2.25, 10, 1000, 1e-3, 1e10, 17};
  for (double X : Xs) {
    double G = F(X), W = value(S, X);
    if (!same(G, W)) {
      fail("value at " + std::to_string(X) + ": got " + std::to_string(G) + ", expected " + std::to_string(W));
    }
    if (!same(F.next(X), W)) {
      fail("next(" + std::to_string(X) + ")");
    }
  }
  for (int X : {0, 1, 2, 5, 10}) {
    double W = value(S, X);
    if (std::fabs(W) < 1e9 && std::fabs(W - std::round(W)) > 1e-9) {
      expect_eq(F.next<int>(X), (int)W, "next<int>(" + std::to_string(X) + ")");
    }
    if (std::fabs(W) < 1e9 && W == std::floor(W) && S.O != '^') {
      expect_eq(F.next<int>(X), (int)W, "next<int>(" + std::to_string(X) + ")");
    }
  }
  expect_eq(F.toString(), text(S), "text");
}

static void check(const std::string &T) {
  begin("parse", T);
  watchdog(30);
  auto F = StepFunctionParser(T).buildStepFunction();
  auto W = parse(T);
  expect_eq(F != nullptr, W.has_value(), "accepted");
  if (F && W) {
    checkF(*F, *W);
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  for (char O : {'+', '*', '^'}) {
    Op E = O == '+' ? Op::ADDITION : O == '*' ? Op::MULTIPLICATION : Op::EXPONENTIATION;
    for (double C : {0.0, 1.0, 2.0, 0.5, -1.0, 10.0, 2.75, 1e6}) {
      begin("construct", std::string(1, O) + std::to_string(C));
      StepFunction A(E, C), B(C, E);
      checkF(A, Spec{true, O, C, "x"});
      checkF(B, Spec{false, O, C, "x"});
      StepFunction D("width", E, C), G(C, E, "width");
      checkF(D, Spec{true, O, C, "width"});
      checkF(G, Spec{false, O, C, "width"});
    }
  }
  static const std::vector<std::string> Fixed = {
      "", " ", "x", "1", "+", "x+", "x+1", "1+x", "x + 1", "x*2", "2*x", "x^2", "2^x", "x ^ 0.5",
      "x+y", "1+2", "x 1", "x + + 1", "x + 1 + 2", "x + 1 y", "x + 1 2", "_x + 1", "x_1 + 1", "x1+1",
      "1x + 1", "1 x", "1x", "x + 1x", "X*2", "x + .5", "x + 5.", "x + .", ". + x", "x + 1.2.3",
      "1..2 * x", "x - 1", "x / 2", "x + -1", "(x + 1)", "x + 1)", "x\t+\n1\r", "x + 1e3", "x + 0x10",
      "x + 007", "x + 1 ", "  x+1", "x*1.5", "abc*1000000", "x + 1,5", "x # 1", "x + 1 #", "#",
      std::string("x + 1\0y", 7), std::string("x +\0 1", 6), "x + 1\xff", "x\xff + 1", "x + 123456789012", "x + 0.1",
      "x ** 2", "x *", "* x", "^", "x ^ ^ 2", "z^3", "3^z", "x+1+", "x+1*"};
  for (auto &T : Fixed) {
    check(T);
  }
  static const std::vector<std::string> Tok = {
      "x", "y1", "foo_bar", "Z", "1", "2.5", ".5", "3.", "0", "10", "007", "1.2.3", ".", "+", "*", "^",
      " ", "\t", "\n", "  ", "-", "#", "e", "1e5", "_", "x2", "E", "a.b"};
  while (more()) {
    std::string T;
    if (coin(70)) {
      auto operand = [&] {
        return coin() ? Tok[rnd(4)] : Tok[4 + rnd(7)];
      };
      auto sp = [&] { return coin(40) ? std::string() : Tok[16 + rnd(4)]; };
      T = sp() + operand() + sp() + Tok[13 + rnd(3)] + sp() + operand() + sp();
      if (coin(15)) {
        T.insert(rnd(T.size() + 1), Tok[rnd(Tok.size())]);
      }
      if (coin(10) && !T.empty()) {
        T.erase(rnd(T.size()), 1);
      }
    } else {
      for (size_t N = rnd(7); N; --N) {
        T += Tok[rnd(Tok.size())];
      }
    }
    check(T);
  }
  finish();
}
