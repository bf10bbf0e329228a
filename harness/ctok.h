// Independent lexer for constraint texts (oracle of C03 and C04).
#pragma once
#include "harness.h"
#include "vara/Feature/ConstraintParser.h"

namespace hn {
using TKind = vara::feature::ConstraintToken::ConstraintTokenKind;
struct Tok {
  TKind K;
  std::string V; // text of identifiers, numbers and errors
  bool operator==(const Tok &O) const { return K == O.K && V == O.V; }
};
inline bool cA(char C) { return (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z'); }
inline bool cD(char C) { return C >= '0' && C <= '9'; }
inline bool cW(char C) { return C == ' ' || C == '\t' || C == '\r' || C == '\n'; }

inline std::vector<Tok> lexc(const std::string &T) {
  static const std::vector<std::pair<std::string, TKind>> Ops = {
      {"<->", TKind::EQUIVALENT}, {"<=>", TKind::EQUIVALENT}, {"->", TKind::IMPLIES},
      {"=>", TKind::IMPLIES},     {"!=", TKind::NOT_EQUAL},   {">=", TKind::GREATER_EQUAL},
      {"<=", TKind::LESS_EQUAL},  {"-", TKind::MINUS},        {"!", TKind::NOT},
      {"=", TKind::EQUAL},        {">", TKind::GREATER},      {"<", TKind::LESS},
      {"(", TKind::L_PAR},        {")", TKind::R_PAR},        {"+", TKind::PLUS},
      {"~", TKind::NEG},          {"*", TKind::STAR},         {"&", TKind::AND},
      {"|", TKind::OR}};
  std::vector<Tok> R;
  size_t I = 0;
  while (I < T.size()) {
    char C = T[I];
    size_t B = I;
    if (cA(C)) {
      while (I < T.size() && (cA(T[I]) || cD(T[I]) || T[I] == '_')) {
        ++I;
      }
      std::string W = T.substr(B, I - B);
      R.push_back(W == "or" ? Tok{TKind::OR, ""} : Tok{TKind::IDENTIFIER, W});
    } else if (cD(C)) {
      std::string W;
      auto E = [](char X) { return X == 'e' || X == 'E'; };
      while (I < T.size() && (cD(T[I]) || E(T[I]) || ((T[I] == '+' || T[I] == '-') && E(T[I - 1])))) {
        W += E(T[I]) ? 'e' : T[I];
        ++I;
      }
      R.push_back({TKind::NUMBER, W});
    } else if (cW(C)) {
      while (I < T.size() && cW(T[I])) {
        ++I;
      }
      R.push_back({TKind::WHITESPACE, ""});
    } else if (C == 0 || (unsigned char)C == 0xff) {
      R.push_back({TKind::END_OF_FILE, ""});
      return R;
    } else {
      bool Ok = false;
      for (auto &O : Ops) {
        if (T.compare(I, O.first.size(), O.first) == 0) {
          R.push_back({O.second, ""});
          I += O.first.size();
          Ok = true;
          break;
        }
      }
      if (!Ok) {
        R.push_back({TKind::ERROR, std::string(1, C)});
        return R;
      }
    }
  }
  R.push_back({TKind::END_OF_FILE, ""});
  return R;
}
inline std::string dump(const std::vector<Tok> &V) {
  std::string S;
  for (auto &T : V) {
    S += std::to_string((int)T.K) + (T.V.empty() ? "" : "'" + T.V + "'") + " ";
  }
  return S;
}
inline const std::vector<std::string> &fragments() {
  static const std::vector<std::string> F = {
      "a",  "b1", "foo_bar", "Z",  "or", "OR", "orr", "e",  "e5", "1",   "42",  "007", "9223372036854775807",
      "9223372036854775808", "18446744073709551616", "1e2", "2E+1", "5e-1", "15e-1", "25e-1", "1e400", "9e18", "1e19", "3e", "1ee2", "0e0",
      "+",  "-",  "*",  "&",  "|",  "=",  "!=", "<",  ">",  "<=", ">=", "->",  "=>",  "<->", "<=>", "!",   "~",   "(",   ")",
      " ",  "\t", "\n", "  ", "\r\n", "^", "/", "_", "#", ".", "[", "\xff", "\xe4", "<-", "1+2", "1-a", "a_1"};
  return F;
}
inline std::string soup(size_t Max) {
  std::string T;
  auto &F = fragments();
  for (size_t N = rnd(Max); N; --N) {
    if (coin(2)) {
      T += (char)rnd(256);
    } else {
      T += F[rnd(F.size())];
    }
  }
  return T;
}
} // namespace hn
