// Environment every particle-level harness needs: the real ParticleType implementation (included so
// that harnesses can fill the type table directly), loggers, random engine. Isospin multiplets are
// not linked in (no property here depends on them unless it says so).
#ifndef SMASH_ENV_H_
#define SMASH_ENV_H_
#include "particletype.cc"
#include "smash/particledata.h"
#include "smash/random.h"
namespace smash {
std::array<einhard::Logger<>, std::tuple_size<LogArea::AreaTuple>::value> logg;
einhard::LogLevel default_loglevel() { return einhard::OFF; }
#ifndef SX_NO_ENGINE
random::Engine random::engine;
#endif
}  // namespace smash
static smash::ParticleTypeList sx_type_table;
// Adds a species (and its antiparticle, if distinct); call sx_types_done() after the last one.
static inline void sx_add_type(const char *name, double mass, double width, smash::PdgCode pdg) {
  using namespace smash;
  sx_type_table.emplace_back(name, mass, width, Parity::Pos, pdg);
  if (pdg.has_antiparticle()) sx_type_table.emplace_back(std::string("anti") + name, mass, width, Parity::Neg, pdg.get_antiparticle());
}
static inline void sx_types_done() {
  using namespace smash;
  std::sort(sx_type_table.begin(), sx_type_table.end());
  all_particle_types = std::addressof(sx_type_table);
}
static inline smash::ParticleData sx_particle(smash::PdgCode pdg, int id = -1) { return smash::ParticleData{smash::ParticleType::find(pdg), id}; }
#endif
