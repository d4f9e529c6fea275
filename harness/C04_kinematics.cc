// Two-body kinematics.
// @entry c04_pcm real reach=above,below
// @entry c04_variants real reach=done
// @entry c04_plab real reach=done
// @entry c04_fixed real reach=done
// @entry c04_cov real reach=done
// @entry c04_beams_E real reach=done
// @entry c04_beams_kin real reach=done
// @entry c04_beams_plab real reach=done
// @entry c04_trange real reach=done time=150 ab=60
// @bound every real mass in [0.001, 100] and energy above threshold
// @assume doubles are encoded as reals (rounding abstracted)
#include "sx.h"
#include "smash/kinematics.h"
using namespace smash;
static double mass(const char *n) { return sx_range(n, 0.001, 100.); }
ENTRY(c04_pcm) {
  double ma = mass("ma"), mb = mass("mb"), e = sx_range("sqrts", 0.001, 1000);
  double p = pCM(e, ma, mb);
  CHECK(p >= 0);
  const double p2 = pCM_sqr(e, ma, mb);
  if (e >= ma + mb) {
    CLOSE(p * p, p2);
    CHECK(p2 >= -1e-12);
    // energies (e^2 +- (ma^2-mb^2))/(2e) are on shell with that momentum and add up to e
    const double ea = (e * e + ma * ma - mb * mb) / (2 * e), eb = (e * e - ma * ma + mb * mb) / (2 * e);
    CLOSE(ea * ea - p * p, ma * ma);
    CLOSE(eb * eb - p * p, mb * mb);
    sx_reach("above");
  } else {
    double lo = ma > mb ? ma - mb : mb - ma;
    if (e > lo) {
      CHECK(p == 0.);
      sx_reach("below");
    }
  }
}
ENTRY(c04_variants) {
  double ma = mass("ma"), mb = mass("mb"), e = sx_range("sqrts", 0.001, 1000);
  sx_assume(e >= ma + mb);
  CLOSE(pCM_from_s(e * e, ma, mb), pCM(e, ma, mb));
  CLOSE(pCM_sqr_from_s(e * e, ma, mb), pCM_sqr(e, ma, mb));
  CLOSE(pCM_sqr(e, ma, mb), pCM_sqr(e, mb, ma));
  CLOSE(4 * e * e * pCM_sqr(e, ma, mb), (e * e - (ma + mb) * (ma + mb)) * (e * e - (ma - mb) * (ma - mb)));
  sx_reach("done");
}
ENTRY(c04_plab) {
  double ma = mass("ma"), mb = mass("mb"), s = sx_range("s", 0.000001, 1e6);
  sx_assume(s >= (ma + mb) * (ma + mb));
  double pl = plab_from_s(s, ma, mb);
  CHECK(pl >= 0);
  double el = std::sqrt(ma * ma + pl * pl);
  CLOSE((el + mb) * (el + mb) - pl * pl, s);
  CLOSE(s_from_plab(pl, ma, mb), s);
  double p2 = plab_from_s(s, mb);
  (void)p2;
  sx_reach("done");
}
ENTRY(c04_fixed) {
  double ma = mass("ma"), mb = mass("mb"), ek = sx_range("ekin", 0.001, 1000);
  const double e = ek + ma;
  CLOSE(s_from_Etot(e, ma, mb), (e + mb) * (e + mb) - (e * e - ma * ma));
  CLOSE(s_from_Ekin(ek, ma, mb), s_from_Etot(e, ma, mb));
  const double s = s_from_Etot(e, ma, mb), v = fixed_target_projectile_v(s, ma, mb);
  // the projectile velocity has gamma = E/m
  CLOSE(v * v * e * e, e * e - ma * ma);
  CHECK((v >= 0) & (v < 1));
  const double p = sx_range("p", 0, 1000), sp = s_from_plab(p, ma, mb), ep = std::sqrt(p * p + ma * ma);
  CLOSE(sp, (ep + mb) * (ep + mb) - p * p);
  sx_reach("done");
}
ENTRY(c04_cov) {
  double ma = mass("ma"), mb = mass("mb"), s = sx_range("s", 0.00001, 1e6);
  sx_assume(s >= (ma + mb) * (ma + mb));
  sx_assume(s > (ma - mb) * (ma - mb) + 1e-6);
  const double v = center_of_velocity_v(s, ma, mb);
  CHECK((v >= 0) & (v < 1));
  const double g2 = 1 / (1 - v * v);
  CLOSE(g2 * ((ma + mb) * (ma + mb) - v * v * (ma - mb) * (ma - mb)), s);
  sx_reach("done");
}
ENTRY(c04_beams_E) {
  double ma = mass("ma"), mb = mass("mb"), e1 = sx_range("e1", 0.001, 1000), e2 = sx_range("e2", 0.001, 1000);
  sx_assume((e1 >= ma) & (e2 >= mb));
  const double p1 = std::sqrt(e1 * e1 - ma * ma), p2 = std::sqrt(e2 * e2 - mb * mb);
  CLOSE(s_from_Etot(e1, e2, ma, mb), (e1 + e2) * (e1 + e2) - (p1 - p2) * (p1 - p2));
  sx_reach("done");
}
ENTRY(c04_beams_kin) {
  double ma = mass("ma"), mb = mass("mb"), k1 = sx_range("k1", 0.001, 1000), k2 = sx_range("k2", 0.001, 1000);
  CLOSE(s_from_Ekin(k1, k2, ma, mb), s_from_Etot(k1 + ma, k2 + mb, ma, mb));
  sx_reach("done");
}
ENTRY(c04_beams_plab) {
  double ma = mass("ma"), mb = mass("mb"), p1 = sx_range("p1", 0, 1000), p2 = sx_range("p2", 0, 1000);
  const double e1 = std::sqrt(ma * ma + p1 * p1), e2 = std::sqrt(mb * mb + p2 * p2);
  CLOSE(s_from_plab(p1, p2, ma, mb), (e1 + e2) * (e1 + e2) - (p1 - p2) * (p1 - p2));
  sx_reach("done");
}
ENTRY(c04_trange) {
  double m1 = sx_range("m1", 0.1, 10.), m2 = sx_range("m2", 0.1, 10.), m3 = sx_range("m3", 0.1, 10.), m4 = sx_range("m4", 0.1, 10.), e = sx_range("sqrts", 0.2, 100);
  sx_assume((e >= m1 + m2) & (e >= m3 + m4));
  const auto t = get_t_range(e, m1, m2, m3, m4);
  CHECK(t[0] >= t[1]);
  // t = (E1-E3)^2 - (p_i -+ p_f)^2 at forward and backward scattering
  const double pi = pCM(e, m1, m2), pf = pCM(e, m3, m4);
  const double E1 = (e * e + m1 * m1 - m2 * m2) / (2 * e), E3 = (e * e + m3 * m3 - m4 * m4) / (2 * e);
  CLOSE(t[0], (E1 - E3) * (E1 - E3) - (pi - pf) * (pi - pf));
  CLOSE(t[1], (E1 - E3) * (E1 - E3) - (pi + pf) * (pi + pf));
  sx_reach("done");
}
