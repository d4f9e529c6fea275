// Quantum numbers of hadrons and nuclei from their quark content.
// @src pdgcode.cc
// @prep --merge
// @entry c07_hadron exact reach=baryon,meson time=250 ab=60
// @entry c07_predicates exact reach=hyperon,nucleon,other time=250 ab=60
// @entry c07_other exact reach=lepton,other time=200 ab=60
// @entry c07_nucleus exact reach=done time=200 ab=60
// @bound every particle code of up to 7 digits the constructor accepts (mesons with the heavier flavour first, as in the PDG scheme); every nucleus with up to 999 nucleons
#include "sx.h"
#include "pdg_sym.h"
using namespace smash;
static int charge3(int q) {  // three times the charge of a (anti)quark
  const int a = q < 0 ? -q : q, c = a % 2 == 0 ? 2 : -1;
  return q == 0 ? 0 : q < 0 ? -c : c;
}
ENTRY(c07_hadron) {
  PdgCode p;
  if (!sym_pdg(p, "code")) return;
  const unsigned d = p.dump(), q3 = (d >> 4) & 15, q2 = (d >> 8) & 15, q1 = (d >> 12) & 15, J = d & 15;
  sx_assume((q3 != 0) & (q2 != 0) & ((q1 != 0) | (q2 >= q3)));
  CHECK(p.is_hadron());
  const auto c = p.quark_content();
  int Q = 0, net = 0, s = 0, ch = 0, b = 0, iso = 0, ns = 0, nc = 0, nb = 0;
  for (int i = 0; i < 3; i++) {
    const int q = c[i];
    Q += charge3(q);
    net += (q > 0) - (q < 0);
    s += (q == -3) - (q == 3);
    ch += (q == 4) - (q == -4);
    b += (q == -5) - (q == 5);
    iso += (q == 2) - (q == -2) - (q == 1) + (q == -1);
    ns += (q == 3) | (q == -3);
    nc += (q == 4) | (q == -4);
    nb += (q == 5) | (q == -5);
  }
  CHECK(3 * p.charge() == Q);
  CHECK(3 * p.baryon_number() == net);
  CHECK(p.strangeness() == s);
  CHECK(p.charmness() == ch);
  CHECK(p.bottomness() == b);
  CHECK(p.isospin3() == iso);
  // the flavours are those of the digits
  CHECK((std::abs(c[0]) == (int)q1) & (std::abs(c[1]) == (int)q2) & (std::abs(c[2]) == (int)q3));
  CHECK(((unsigned)p.quarks() & 0xfffu) == ((d >> 4) & 0xfffu));
  if (q1 != 0) {
    CHECK(p.is_baryon() & !p.is_meson());
    CHECK((net == 3) | (net == -3));
    CHECK(p.frac_strange() == ns / 3.);
    CHECK(p.frac_charm() == nc / 3.);
    CHECK(p.frac_bottom() == nb / 3.);
    CHECK(p.is_charmonia() == false);
    sx_reach("baryon");
  } else {
    CHECK(p.is_meson() & !p.is_baryon());
    CHECK(p.frac_strange() == ns / 2.);
    CHECK(p.frac_charm() == nc / 2.);
    CHECK(p.frac_bottom() == nb / 2.);
    CHECK(p.is_charmonia() == ((q2 == 4) & (q3 == 4)));
    // the heavier flavour decides the sign of the name: K+ = u sbar, D+ = c dbar, B+ = u bbar
    CHECK(p.net_quark_number(q2) == (q2 == q3 ? 0 : (q2 % 2 == 0 ? 1 : -1) * p.antiparticle_sign()));
    sx_reach("meson");
  }
  CHECK(p.is_heavy_flavor() == (nc + nb > 0));
  CHECK(p.spin() == (J == 0 ? 0 : J - 1));
  CHECK(p.spin_degeneracy() == p.spin() + 1);
  // half-integer spin exactly for baryons
  CHECK((p.spin() % 2 == 1) == p.is_baryon());
}
ENTRY(c07_predicates) {
  PdgCode p;
  if (!sym_pdg(p, "code")) return;
  const unsigned d = p.dump() & 0x7fffffff;
  const bool anti = p.antiparticle_sign() < 0;
  CHECK((int)p.is_hadron() == (int)p.is_meson() + (int)p.is_baryon());
  CHECK(p.is_proton() == (d == 0x2212));
  CHECK(p.is_neutron() == (d == 0x2112));
  CHECK(p.is_nucleon() == (p.is_proton() | p.is_neutron()));
  CHECK(p.is_Delta() == ((d == 0x1114) | (d == 0x2114) | (d == 0x2214) | (d == 0x2224)));
  CHECK(p.is_Nstar1535() == ((d == 0x22212) | (d == 0x22112)));
  CHECK(p.is_pion() == ((d == 0x211) | (d == 0x111)));
  CHECK(p.is_kaon() == ((d == 0x311) | (d == 0x321)));
  CHECK(p.is_rho() == ((d == 0x113) | (d == 0x213)));
  CHECK(p.is_omega() == ((d == 0x223) & !anti));
  CHECK(p.is_Sigmastar() == ((d == 0x3114) | (d == 0x3214) | (d == 0x3224)));
  CHECK((int)p.is_hyperon() == (int)p.is_Lambda() + (int)p.is_Sigma() + (int)p.is_Xi() + (int)p.is_Omega());
  if (p.is_Lambda()) CHECK((std::abs(p.strangeness()) == 1) & (p.charge() == 0));
  // hyperons with the heaviest quark first carry one, two, three units of strangeness
  const unsigned q3 = (d >> 4) & 15, q2 = (d >> 8) & 15;
  if (p.is_hyperon() & (q2 <= 3) & (q3 <= 3)) {
    const int s = std::abs(p.strangeness());
    const bool other_way = (q2 < 3) & (q3 == 3);  // not a PDG ordering
    if (p.is_Xi()) CHECK(s == 2);
    if (p.is_Omega()) CHECK(s == 3);
    if (p.is_Sigma() & !other_way) CHECK(s == 1);
    sx_reach("hyperon");
  }
  if (p.is_nucleon()) {
    CHECK(p.is_baryon());
    CHECK(p.charge() == (p.is_proton() ? p.antiparticle_sign() : 0));
    CHECK(p.spin() == 1);
    sx_reach("nucleon");
  }
  if (p.is_meson()) {
    for (int k = -3; k <= 3; k++) CHECK(p.contains_enough_valence_quarks(k) == ((k == 1) | (k == -1)));
  } else if (p.is_baryon()) {
    for (int k = -3; k <= 3; k++) CHECK(p.contains_enough_valence_quarks(k) == (anti ? (k == -1) | (k == -2) : (k == 1) | (k == 2)));
  }
  sx_reach("other");
}
ENTRY(c07_other) {
  PdgCode p;
  if (!sym_pdg(p, "code")) return;
  if (p.is_hadron()) return;
  for (int f = 1; f <= 6; f++) CHECK(p.net_quark_number(f) == 0);
  CHECK((p.baryon_number() == 0) & (p.strangeness() == 0) & (p.isospin3() == 0));
  const auto c = p.quark_content();
  CHECK((c[0] == 0) & (c[1] == 0) & (c[2] == 0));
  CHECK((p.frac_strange() == 0) & (p.frac_charm() == 0) & (p.frac_bottom() == 0));
  if (p.is_lepton()) {
    const unsigned J = p.dump() & 15;
    CHECK(p.charge() == (J % 2 == 1 ? -p.antiparticle_sign() : 0));
    CHECK(p.is_neutrino() == (J % 2 == 0));
    CHECK(p.spin() == 1);
    sx_reach("lepton");
  } else {
    CHECK(!p.is_neutrino());
    if ((p.dump() & 0x7fffffff) == 0x22) CHECK((p.charge() == 0) & (p.spin() == 2));
    sx_reach("other");
  }
}
ENTRY(c07_nucleus) {
  int L, Z, A;
  bool anti;
  const PdgCode p = sym_nucleus(L, Z, A, anti);
  const int s = anti ? -1 : 1;
  CHECK(p.charge() == s * Z);
  CHECK(p.baryon_number() == s * A);
  CHECK(p.strangeness() == -s * L);
  CHECK((p.charmness() == 0) & (p.bottomness() == 0));
  CHECK(p.isospin3() == s * (2 * Z + L - A));
  CHECK(p.net_quark_number(1) + p.net_quark_number(2) + p.net_quark_number(3) == 3 * s * A);
  CHECK(p.nucleus_p() + p.nucleus_n() + p.nucleus_La() == (anti ? 0 : A));
  CHECK(p.nucleus_ap() + p.nucleus_an() + p.nucleus_aLa() == (anti ? A : 0));
  CHECK(!p.is_hadron() & !p.is_lepton() & !p.is_meson() & !p.is_baryon());
  if ((A >= 2) & (A <= 4)) CHECK(p.spin() % 2 == (unsigned)A % 2);
  sx_reach("done");
}
