// Shared by E01 and E02: column information and exact reasoning about
// parametric solutions.
#ifndef VERIF_EQUATION_H
#define VERIF_EQUATION_H
#include "mc.h"
#include <array>
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <bcl/Equation.h>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

/// Columns 0..99 are variables, 100.. are parameters, 200+c is a parameter
/// attached to column c (see the documentation of BinomialSystem).
struct Info {
  int Next = 100;
  std::map<int, long long> Values;   // computable variables
  std::map<int, bool> Guards;
  mutable long Asked = 0;
  int parameterColumn() { return Next++; }
  template <class C> C parameterColumn(C Of) { return 1000 + Of; }
  bool isParameter(long C) const { return C >= 100; }
  std::string name(long C) const { return (C >= 100 ? "t" : "x") + std::to_string(C); }
  template <class T> T get(long C) const { return (T)Values.at((int)C); }
};
template <> inline bool Info::get<bool>(long C) const { ++Asked; return Guards.at((int)C); }
#endif
