// An arbitrary valid particle code.
#ifndef PDG_SYM_H_
#define PDG_SYM_H_
#include "smash/pdgcode.h"
// Every hadron / lepton / boson code with decimal digits the constructor accepts.
static inline bool sym_pdg(smash::PdgCode &p, const char *name) {
  unsigned raw = sx_i32(name) & 0x0fffffff;
  if (sx_choose(0, 1, "negative")) raw |= 0x80000000u;
  try {
    p = smash::PdgCode(raw);
  } catch (smash::PdgCode::InvalidPdgCode &) {
    return false;
  }
  return true;
}
// Every nucleus of at most 99 nucleons (hyperons included in the mass number).
static inline smash::PdgCode sym_nucleus(int &L, int &Z, int &A, bool &anti) {
  const unsigned raw = sx_i32("fields") & 0x3fffffff;
  L = raw & 63, Z = (raw >> 6) & 1023, A = (raw >> 16) & 1023;
  sx_assume((L <= 9) & (A >= 1) & (A <= 999) & (Z + L <= A) & (raw >> 26 <= 9));
  smash::PdgCode p;
  p.dump_ = raw | 0x40000000u;
  anti = sx_choose(0, 1, "anti");
  if (anti) p = p.get_antiparticle();
  return p;
}
#endif
