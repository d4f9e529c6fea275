// Charge conjugation of PDG codes.
// @src pdgcode.cc
// @prep --merge
// @entry c06_flip exact reach=baryon,meson,lepton,same time=200 ab=60
// @entry c06_nucleus exact reach=done time=200 ab=60
// @bound every particle code of up to 7 digits the constructor accepts; every nucleus with up to 999 nucleons
#include "sx.h"
#include "pdg_sym.h"
using namespace smash;
static void flipped(const PdgCode &p, const PdgCode &q) {
  CHECK(q.charge() == -p.charge());
  CHECK(q.baryon_number() == -p.baryon_number());
  CHECK(q.strangeness() == -p.strangeness());
  CHECK(q.charmness() == -p.charmness());
  CHECK(q.bottomness() == -p.bottomness());
  CHECK(q.isospin3() == -p.isospin3());
  for (int f = 1; f <= 6; f++) CHECK(q.net_quark_number(f) == -p.net_quark_number(f));
  CHECK(q.get_antiparticle() == p);
  CHECK(q.has_antiparticle());
  CHECK(q != p);
  CHECK(q.antiparticle_sign() == -p.antiparticle_sign());
  CHECK(q.get_decimal() == -p.get_decimal());
}
ENTRY(c06_flip) {
  PdgCode p;
  if (!sym_pdg(p, "code")) return;
  if (!p.has_antiparticle()) {
    // carries no additive quantum number (charged gauge bosons are listed without antiparticle)
    if (p.is_hadron()) {
      CHECK(p.charge() == 0);
      CHECK(p.strangeness() == 0);
      CHECK(p.charmness() == 0);
      CHECK(p.bottomness() == 0);
      CHECK(p.baryon_number() == 0);
      CHECK(p.isospin3() == 0);
    }
    CHECK(p.antiparticle_sign() == 1);
    sx_reach("same");
    return;
  }
  const PdgCode q = p.get_antiparticle();
  flipped(p, q);
  CHECK(q.code() == -p.code());
  CHECK(p.is_antiparticle_of(q) & q.is_antiparticle_of(p));
  CHECK(!p.is_antiparticle_of(p));
  CHECK(q.spin() == p.spin());
  CHECK(q.spin_degeneracy() == p.spin_degeneracy());
  CHECK(q.frac_strange() == p.frac_strange());
  CHECK(q.frac_charm() == p.frac_charm());
  CHECK(q.frac_bottom() == p.frac_bottom());
  CHECK((q.is_baryon() == p.is_baryon()) & (q.is_meson() == p.is_meson()) & (q.is_lepton() == p.is_lepton()));
  const auto a = p.quark_content(), b = q.quark_content();
  for (int f = 1; f <= 6; f++) {
    int na = 0, nb = 0;
    for (int i = 0; i < 3; i++) {
      na += (a[i] == f) - (a[i] == -f);
      nb += (b[i] == f) - (b[i] == -f);
    }
    CHECK(na == -nb);
  }
  if (p.is_baryon()) sx_reach("baryon");
  if (p.is_meson()) sx_reach("meson");
  if (p.is_lepton()) sx_reach("lepton");
}
ENTRY(c06_nucleus) {
  int L, Z, A;
  bool anti;
  const PdgCode p = sym_nucleus(L, Z, A, anti);
  CHECK(p.has_antiparticle());
  flipped(p, p.get_antiparticle());
  const PdgCode q = p.get_antiparticle();
  CHECK((p.nucleus_p() == q.nucleus_ap()) & (p.nucleus_n() == q.nucleus_an()) & (p.nucleus_La() == q.nucleus_aLa()) & (p.nucleus_A() == q.nucleus_A()));
  sx_reach("done");
}
