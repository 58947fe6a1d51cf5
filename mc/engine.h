#ifndef ENGINE_H
#define ENGINE_H
#include "prog.h"
#include "vmpi.h"
enum { M_SINGLE = 0, M_FULL = 1, M_DEV = 2, M_RANKWISE = 3, M_FAULT = 4 };
struct Spec {
  vmpi::Policy pol; int mode = M_SINGLE; uint32_t mask = 0; int dev = 0; long cap = 1;
  bool leaks = false;
};
struct Item { std::vector<int> flat; int specs; };     // specs: index in Suite::speclists
struct Suite {
  std::vector<Item> items;
  std::vector<std::vector<Spec>> speclists;
  std::string bounds;                // text for the evidence
  void add(const Case &c0, int sl) { Case c = c0; if (c.job() > vmpi::MAXR) c.comm = 0; items.push_back(Item{c.flat(), sl}); }
};
// fills the suite of a property; false if unknown
bool make_suite(const std::string &prop, bool thorough, Suite &s);
extern const vmpi::Policy P_A, P_B, P_C, P_D;
#endif
