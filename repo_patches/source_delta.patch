From b8e43c24976bacaaffb437ca8e2791c0018853ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 01/16] fix: use the projectile mass for the projectile in
 two-beam s_from_Ekin

---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 363caf9..0c36cd6 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -251,7 +251,7 @@ inline double s_from_Ekin(double e_kin, double m_P, double m_T) {
  */
 inline double s_from_Ekin(double e_kin_p, double e_kin_t, double m_p,
                           double m_t) {
-  return s_from_Etot(e_kin_p + m_t, e_kin_t + m_t, m_p, m_t);
+  return s_from_Etot(e_kin_p + m_p, e_kin_t + m_t, m_p, m_t);
 }
 /**
  * Convert p_lab to Mandelstam-s for a fixed-target setup,
-- 
2.43.0


From 9e52c26d4328abca47871a0feed4650454e4c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:15 +0000
Subject: [PATCH 02/16] fix: pass the masses, not the momenta, on in two-beam
 s_from_plab

---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 0c36cd6..0a37617 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -278,7 +278,7 @@ inline double s_from_plab(double plab, double m_P, double m_T) {
 inline double s_from_plab(double plab_p, double plab_t, double m_p,
                           double m_t) {
   return s_from_Etot(std::sqrt(m_p * m_p + plab_p * plab_p),
-                     std::sqrt(m_t * m_t + plab_t * plab_t), plab_p, plab_t);
+                     std::sqrt(m_t * m_t + plab_t * plab_t), m_p, m_t);
 }
 
 }  // namespace smash
-- 
2.43.0


From f198812c7a2642bf8bce36baca2112706c792e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:15 +0000
Subject: [PATCH 03/16] fix: compute sqrt(s_NN) of two beams from their total
 energies as such

---
 src/collidermodus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index d54d0b4..6e11e33 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -181,7 +181,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
     total_s_ = s_from_Etot(e_tot_p * projectile_->number_of_particles(),
                            e_tot_t * target_->number_of_particles(),
                            mass_projec, mass_target);
-    sqrt_s_NN_ = std::sqrt(s_from_Ekin(e_tot_p, e_tot_t, mass_a, mass_b));
+    sqrt_s_NN_ = std::sqrt(s_from_Etot(e_tot_p, e_tot_t, mass_a, mass_b));
     energy_input++;
   }
   // Option 6: Kinetic energy per nucleon of _each_ beam
-- 
2.43.0


From accd7a5add1085bc2a7639d477b2dc29a1ad1235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 04/16] fix: reject nucleus PDG codes with hexadecimal digits

---
 src/include/smash/pdgcode.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/smash/pdgcode.h b/src/include/smash/pdgcode.h
index ee5b29a..b0b355c 100644
--- a/src/include/smash/pdgcode.h
+++ b/src/include/smash/pdgcode.h
@@ -1079,6 +1079,10 @@ class PdgCode {
       std::array<int, 8> digits;
       for (int i = 0; i < 8; i++) {
         digits[i] = get_digit_from_char(codestring[c + i]);
+        if (digits[i] > 9) {
+          throw InvalidPdgCode("Pdg code of nucleus \"" + codestring +
+                               "\" should only contain decimal digits\n");
+        }
       }
       nucleus_.n_Lambda_ = digits[0];
       nucleus_.Z_ = 100 * digits[1] + 10 * digits[2] + digits[3];
-- 
2.43.0


From a1f9b30cbe1ae94c20e7ef7e26693f07203730fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 05/16] fix: reject PDG code strings with digits that do not
 fit their field

---
 src/include/smash/pdgcode.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/pdgcode.h b/src/include/smash/pdgcode.h
index b0b355c..db1b987 100644
--- a/src/include/smash/pdgcode.h
+++ b/src/include/smash/pdgcode.h
@@ -1098,8 +1098,9 @@ class PdgCode {
     }
     /* Please note that in what follows, we actually need c++, not ++c.
      * first digit is used for n_J if the last digit is not enough. */
+    std::uint32_t n_J = 0;
     if (length > 7 + sign) {
-      digits_.n_J_ += get_digit_from_char(codestring[c++]);
+      n_J += get_digit_from_char(codestring[c++]);
     }
     // Codestring has 7 digits? 7th from last goes in n_.
     if (length > 6 + sign) {
@@ -1136,12 +1137,19 @@ class PdgCode {
     }
     // Last digit is the spin degeneracy.
     if (length > sign) {
-      digits_.n_J_ += get_digit_from_char(codestring[c++]);
+      n_J += get_digit_from_char(codestring[c++]);
     } else {
       throw InvalidPdgCode(
           "String \"" + codestring +
           "\" only consists of a sign, that is no valid PDG Code\n");
     }
+    if (n_J > 15) {
+      throw InvalidPdgCode("Invalid PDG code " + codestring + " (n_J>15)");
+    }
+    digits_.n_J_ = n_J;
+    if (test_code() > 0) {
+      throw InvalidPdgCode("Invalid digits in PDG code " + codestring);
+    }
     check();
   }
 
-- 
2.43.0


From ef64b26c5b64e5e49d1e5c375f1b74b7c1b1dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 06/16] fix: report a particle list that consists only of holes
 as empty

---
 src/include/smash/particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/particles.h b/src/include/smash/particles.h
index 9271058..fc1fdb0 100644
--- a/src/include/smash/particles.h
+++ b/src/include/smash/particles.h
@@ -87,7 +87,7 @@ class Particles {
   size_t size() const { return data_size_ - dirty_.size(); }
 
   /// \return whether the list of particles is empty.
-  bool is_empty() const { return data_size_ == 0; }
+  bool is_empty() const { return size() == 0; }
 
   /**
    *  Returns the time of the computational frame.
-- 
2.43.0


From f59df25ca780ae4879e57758e90d3123d9f55d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 07/16] fix: keep positions wrapped at a periodic boundary
 below the box length

---
 src/include/smash/algorithms.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/smash/algorithms.h b/src/include/smash/algorithms.h
index 0c1b746..b7c986f 100644
--- a/src/include/smash/algorithms.h
+++ b/src/include/smash/algorithms.h
@@ -59,6 +59,10 @@ static bool enforce_periodic_boundaries(
     if (x < 0) {
       had_to_wrap = true;
       x += length;
+      // A tiny negative number plus length is rounded to exactly length
+      if (x >= length) {
+        x = 0;
+      }
     } else if (x >= length) {
       had_to_wrap = true;
       x -= length;
-- 
2.43.0


From bc037f8c13421bd66b737f83435504ae66c959ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 08/16] fix: find hypersurface crossings of particles coming
 from negative times

---
 src/hypersurfacecrossingfinder.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypersurfacecrossingfinder.cc b/src/hypersurfacecrossingfinder.cc
index 0c23bef..a1610f6 100644
--- a/src/hypersurfacecrossingfinder.cc
+++ b/src/hypersurfacecrossingfinder.cc
@@ -119,13 +119,14 @@ bool HyperSurfaceCrossActionsFinder::crosses_hypersurface(
     ParticleData &pdata_before_propagation,
     ParticleData &pdata_after_propagation, const double tau) const {
   bool hypersurface_is_crossed = false;
+  // At negative times the particle cannot have reached the hypersurface yet
   const bool t_greater_z_before_prop =
-      (std::fabs(pdata_before_propagation.position().x0()) >
+      (pdata_before_propagation.position().x0() >
                std::fabs(pdata_before_propagation.position().x3())
            ? true
            : false);
   const bool t_greater_z_after_prop =
-      (std::fabs(pdata_after_propagation.position().x0()) >
+      (pdata_after_propagation.position().x0() >
                std::fabs(pdata_after_propagation.position().x3())
            ? true
            : false);
-- 
2.43.0


From d69545e45cc4316f072b6abcdcab390e9fe1421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 09/16] fix: put nucleons with frozen Fermi motion on the
 hypersurface where they cross it

---
 src/hypersurfacecrossingfinder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypersurfacecrossingfinder.cc b/src/hypersurfacecrossingfinder.cc
index a1610f6..663ef3e 100644
--- a/src/hypersurfacecrossingfinder.cc
+++ b/src/hypersurfacecrossingfinder.cc
@@ -178,7 +178,11 @@ FourVector HyperSurfaceCrossActionsFinder::coordinates_on_hypersurface(
   assert(!(sol2 >= t1 && sol2 <= t2));
 
   // Propagate to point where hypersurface is crossed
-  const ThreeVector v = pdata_before_propagation.velocity();
+  // (The velocity of the propagation is not necessarily the one of the particle
+  // because of frozen Fermi motion.)
+  const ThreeVector v = (pdata_after_propagation.position().threevec() -
+                         pdata_before_propagation.position().threevec()) /
+                        (t2 - t1);
   const FourVector distance = FourVector(0.0, v * (sol1 - t1));
   FourVector crossing_position = pdata_before_propagation.position() + distance;
   crossing_position.set_x0(sol1);
-- 
2.43.0


From 61ea258441aa611c2f1d3c33116539ac0e979261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:48 +0000
Subject: [PATCH 10/16] fix: reject time steps below the resolution of the
 clock

A time step that is rounded to zero clock units passed the check for a
positive time step and left a clock that never advances.
---
 src/include/smash/clock.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 0129636..2e5a7bc 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -236,7 +236,7 @@ class UniformClock : public Clock {
       : timestep_duration_(convert(dt)),
         reset_time_(convert(time)),
         time_end_(convert(time_end)) {
-    if (dt <= 0.) {
+    if (dt <= 0. || timestep_duration_ <= 0) {
       throw std::range_error("Time increment must be positive and non-zero");
     }
     if (reset_time_ >= time_end_) {
@@ -304,7 +304,7 @@ class UniformClock : public Clock {
    * \param[in] dt new time step size
    */
   void set_timestep_duration(double dt) {
-    if (dt <= 0.) {
+    if (dt <= 0. || convert(dt) <= 0) {
       throw std::range_error("Time increment must be positive and non-zero!");
     }
     reset_time_ += timestep_duration_ * counter_;
-- 
2.43.0


From ac1470e1a3944f1b32038539f8ff0eb56b925c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:41 +0000
Subject: [PATCH 11/16] fix: keep the overflow guard of the clock's next time
 from overflowing

The product in the guard itself overflowed for large tick counts, so that
the guard was passed and a wrapped-around time was returned.
---
 src/include/smash/clock.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 2e5a7bc..0909a17 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -268,8 +268,12 @@ class UniformClock : public Clock {
    *       floating point arithmetic).
    */
   double next_time() const override {
-    if (counter_ * timestep_duration_ >=
-        std::numeric_limits<Representation>::max() - timestep_duration_) {
+    // guard against overflow (without overflowing here):
+    if (timestep_duration_ > 0 &&
+        counter_ >= (std::numeric_limits<Representation>::max() -
+                     std::max(reset_time_, Representation(0))) /
+                            timestep_duration_ -
+                        1) {
       throw std::overflow_error("Too many timesteps, clock overflow imminent");
     }
     auto next_point_in_time = reset_time_ + timestep_duration_ * (counter_ + 1);
-- 
2.43.0


From 4f20841ecbca4580935bf1d09d426c35308b04fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:49 +0000
Subject: [PATCH 12/16] fix: interpolate the Pauli blocking weights in the
 right direction

The weights of the two neighbouring support points were swapped, so that
the phase-space density jumped at every support point.
---
 src/pauliblocking.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pauliblocking.cc b/src/pauliblocking.cc
index fa9d9c8..0140dd0 100644
--- a/src/pauliblocking.cc
+++ b/src/pauliblocking.cc
@@ -84,7 +84,7 @@ double PauliBlocker::phasespace_dens(const ThreeVector &r, const ThreeVector &p,
       const size_t i = numeric_cast<size_t>(std::floor(i_real));
       const double rest = i_real - i;
       if (likely(i + 1 < weights_.size())) {
-        f += weights_[i] * rest + weights_[i + 1] * (1. - rest);
+        f += weights_[i] * (1. - rest) + weights_[i + 1] * rest;
       }
     }  // loop over particles in one ensemble
   }    // loop over ensembles
-- 
2.43.0


From db64ff75fba32aa917f0ecd24cb0f359f5e28060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:49 +0000
Subject: [PATCH 13/16] fix: respect the option to keep initial particles from
 decaying

Collision_Term: Decay_Initial_Particles was read from the configuration but
never handed to the decay finder, which always used the default.
---
 src/include/smash/decayactionsfinder.h | 12 ++++++++----
 src/include/smash/experiment.h         |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/include/smash/decayactionsfinder.h b/src/include/smash/decayactionsfinder.h
index a41ea05..4808e6c 100644
--- a/src/include/smash/decayactionsfinder.h
+++ b/src/include/smash/decayactionsfinder.h
@@ -33,15 +33,20 @@ class DecayActionsFinder : public ActionFinderInterface {
    * \param[in] do_non_strong_decays whether to do non-strong decays at the end
    * \param[in] force_decays_at_end whether to enforce decays at the end
    * \param[in] spin_interaction_type Which type of spin interaction to use
+   * \param[in] decay_initial_particles whether particles can decay before
+   *                                    their first collision
    */
   explicit DecayActionsFinder(
       double res_lifetime_factor, bool do_non_strong_decays,
       bool force_decays_at_end,
-      SpinInteractionType spin_interaction_type = SpinInteractionType::Off)
+      SpinInteractionType spin_interaction_type = SpinInteractionType::Off,
+      bool decay_initial_particles =
+          InputKeys::collTerm_decayInitial.default_value())
       : res_lifetime_factor_(res_lifetime_factor),
         do_final_non_strong_decays_(do_non_strong_decays),
         find_final_decays_(force_decays_at_end),
-        spin_interaction_type_(spin_interaction_type) {}
+        spin_interaction_type_(spin_interaction_type),
+        decay_initial_particles_(decay_initial_particles) {}
 
   /**
    * Check the whole particle list for decays.
@@ -92,8 +97,7 @@ class DecayActionsFinder : public ActionFinderInterface {
    * Whether to initial state particles can decay. Useful for analyzing
    * interactions involving one or more resonances.
    */
-  const bool decay_initial_particles_ =
-      InputKeys::collTerm_decayInitial.default_value();
+  const bool decay_initial_particles_;
 };
 
 }  // namespace smash
diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 81a1e93..4adb990 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -1056,7 +1056,8 @@ Experiment<Modus>::Experiment(Configuration &config,
     }
     action_finders_.emplace_back(std::make_unique<DecayActionsFinder>(
         parameters_.res_lifetime_factor, parameters_.do_non_strong_decays,
-        force_decays_, parameters_.spin_interaction_type));
+        force_decays_, parameters_.spin_interaction_type,
+        parameters_.decay_initial_particles));
   }
   bool no_coll = config.take(InputKeys::collTerm_noCollisions);
   if ((parameters_.two_to_one || parameters_.included_2to2.any() ||
-- 
2.43.0


From 67220706fc9f105a178467336736a245548a6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:18 +0000
Subject: [PATCH 14/16] fix: BesselSampler must not return negative particle
 numbers

The Gaussian approximation used for large means has a tail below zero, so that
sample() could return negative counts.
---
 src/random.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/random.cc b/src/random.cc
index 4049abf..d06e319 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -9,6 +9,7 @@
 
 #include "smash/random.h"
 
+#include <algorithm>
 #include <random>
 
 #include "smash/logging.h"
@@ -73,8 +74,10 @@ random::BesselSampler::BesselSampler(const double poisson_mean1,
 
 std::pair<int, int> random::BesselSampler::sample() {
   const int N_smaller = numeric_cast<int>(
-      (m_ >= m_switch_method_) ? std::round(random::normal(mu_, sigma_))
-                               : std::floor(dist_()));
+      (m_ >= m_switch_method_)
+          // the tail of the Gaussian must not give negative particle numbers
+          ? std::max(0., std::round(random::normal(mu_, sigma_)))
+          : std::floor(dist_()));
   return N_is_positive_ ? std::make_pair(N_smaller + N_, N_smaller)
                         : std::make_pair(N_smaller, N_smaller + N_);
 }
-- 
2.43.0


From 3825685c4d96de25e0a0027963e8c2a60a7eb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 15/16] fix: pad strings wider than the requested width by
 nothing

The filling width of utf8::fill_left and friends underflowed for strings that
are already wider, so that std::length_error was thrown.
---
 src/stringfunctions.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stringfunctions.cc b/src/stringfunctions.cc
index 22782dc..fb1bc41 100644
--- a/src/stringfunctions.cc
+++ b/src/stringfunctions.cc
@@ -17,13 +17,13 @@ namespace smash {
 namespace utf8 {
 
 /**
- * Adjust filling width by taking the size of unicode characters into account.
- * This is necessary, because UTF-8 characters can be represented by more than
- * byte.
+ * Determine filling width by taking the size of unicode characters into
+ * account. This is necessary, because UTF-8 characters can be represented by
+ * more than byte.
  *
  * \param[in] s String to be filled.
- * \param[in] width Width (in bytes) to be adjusted.
- * \return Adjusted width.
+ * \param[in] width Total width of the filled string.
+ * \return Number of filling characters (zero if the string is too wide).
  */
 inline static size_t adjust(const std::string &s, size_t width) {
   for (unsigned char c : s) {
@@ -42,11 +42,11 @@ inline static size_t adjust(const std::string &s, size_t width) {
       width += 1;
     }
   }
-  return width;
+  return width > s.size() ? width - s.size() : 0;
 }
 
 std::string fill_left(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     return std::string(width, fill) + s;
   }
@@ -54,7 +54,7 @@ std::string fill_left(const std::string &s, size_t width, char fill) {
 }
 
 std::string fill_right(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     return s + std::string(width, fill);
   }
@@ -62,7 +62,7 @@ std::string fill_right(const std::string &s, size_t width, char fill) {
 }
 
 std::string fill_both(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     const int l = width / 2;
     const int r = width - l;
-- 
2.43.0


From e766e146a7642234eb8532bd7a4312bded22353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 16/16] fix: keep the unfinished suffix of output files that
 could not be written completely

---
 src/file.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/file.cc b/src/file.cc
index 006cada..829dace 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -27,10 +27,13 @@ RenamingFilePtr::RenamingFilePtr(const std::filesystem::path& filename,
 FILE* RenamingFilePtr::get() { return file_; }
 
 RenamingFilePtr::~RenamingFilePtr() {
-  std::fclose(file_);
-  // we rename the output file only if we are not unwinding the stack
-  // because of an exception
-  if (std::uncaught_exceptions() == uncaught_exceptions_) {
+  const bool write_error = std::ferror(file_) != 0;
+  const bool closed = std::fclose(file_) == 0;
+  // we rename the output file only if everything could be written to it (e.g.
+  // there was enough space) and we are not unwinding the stack because of an
+  // exception
+  if (closed && !write_error &&
+      std::uncaught_exceptions() == uncaught_exceptions_) {
     std::filesystem::rename(filename_unfinished_, filename_);
   }
 }
-- 
2.43.0

