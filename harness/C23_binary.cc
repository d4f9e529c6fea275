// Binary output read back by an independent reader of the documented layout.
// @src binaryoutput.cc file.cc action.cc processbranch.cc decaytype.cc decaymodes.cc pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc stringfunctions.cc
// @libs gsl gslcblas
// @flags -I@V@/harness/fsshim -include sx_files.h -U_FORTIFY_SOURCE
// @entry c23_particles exact reach=done,skipped time=100
// @entry c23_collisions exact reach=done time=100
// @entry c23_initial exact reach=done time=60
// @entry c23_custom exact reach=done time=60
// @entry c23_chunks exact reach=done,several,refused time=60
// @bound one event of up to three particles (all bit patterns of positions and, for massless species, momenta; formation times, factors, histories, weights, spins, ids, event numbers), formats Oscar2013, extended and custom; chunk sizes from one byte to beyond all lines of up to four particles
// @assume fwrite writes everything it is given
#include "sx.h"
#include <cstring>
#include "mock_action.h"
#include "smash_env.h"
#include "smash/binaryoutput.h"
#include "smash/config.h"
#include "smash/decaymodes.h"
#include "smash/particles.h"
using namespace smash;
namespace smash { Potentials *pot_pointer = nullptr; RectangularLattice<FourVector> *UB_lat_pointer = nullptr, *UI3_lat_pointer = nullptr; }
// ---- the file
static char data_[2048];
static size_t len, pos;
static bool is_open;
static std::string opened, final_name;
extern "C" FILE *sxf_fopen(const char *n, const char *m) { opened = n; is_open = true; CHECK(!strcmp(m, "wb")); return reinterpret_cast<FILE *>(data_); }
extern "C" int sxf_fclose(FILE *) { is_open = false; return 0; }
extern "C" int sxf_fflush(FILE *) { return 0; }
extern "C" int sxf_ferror(FILE *) { return 0; }
extern "C" size_t sxf_fwrite(const void *p, size_t a, size_t b, FILE *) {
  CHECK(is_open & (len + a * b <= sizeof data_));
  memcpy(data_ + len, p, a * b);
  len += a * b;
  return b;
}
bool sx_fs_exists(const std::string &) { return false; }
int sx_fs_remove(const std::string &) { return 0; }
int sx_fs_rename(const std::string &, const std::string &b) { final_name = b; return 0; }
// ---- the reader
template <typename T> static T get() {
  T r;
  CHECK(pos + sizeof(T) <= len);
  memcpy(&r, data_ + pos, sizeof(T));
  pos += sizeof(T);
  return r;
}
static void i32(int64_t want) { CHECK(get<int32_t>() == (int32_t)want); }
static void u32(uint32_t want) { CHECK(get<uint32_t>() == want); }
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static void f64(double want) { CHECK(get<uint64_t>() == bits(want)); }
static void chr(char c) { CHECK(get<char>() == c); }
static void header(int variant) {
  pos = 0;
  chr('S'); chr('M'); chr('S'); chr('H');
  CHECK(get<uint16_t>() == 10);
  CHECK(get<uint16_t>() == variant);
  const std::string v = SMASH_VERSION;
  u32(v.size());
  for (char c : v) chr(c);
}
static void line(const ParticleData &p, bool extended) {
  for (int i = 0; i < 4; i++) f64(p.position()[i]);
  f64(p.pole_mass() < 1e-6 ? p.pole_mass() : p.momentum().abs());
  for (int i = 0; i < 4; i++) f64(p.momentum()[i]);
  i32(p.pdgcode().get_decimal());
  i32(p.id());
  i32(p.type().charge());
  if (!extended) return;
  const HistoryData h = p.get_history();
  i32(h.collisions_per_particle);
  f64(p.formation_time());
  f64(p.xsec_scaling_factor());
  i32(h.id_process);
  i32((int)h.process_type);
  f64(h.time_last_collision);
  i32(h.p1.get_decimal());
  i32(h.p2.get_decimal());
  i32(p.pdgcode().baryon_number());
  i32(p.pdgcode().strangeness());
}
static EventLabel label;
static EventInfo info;
static std::unique_ptr<Clock> noclock;
alignas(16) static char nodens[512];
static void pblock(const std::vector<ParticleData> &l, bool extended) {
  chr('p');
  i32(label.event_number);
  i32(label.ensemble_number);
  u32(l.size());
  for (const ParticleData &p : l) line(p, extended);
}
static void eventend() {
  chr('f');
  i32(label.event_number);
  i32(label.ensemble_number);
  f64(info.impact_parameter);
  chr(info.empty_event);
}
static void end(const std::string &name) {
  CHECK(pos == len);
  CHECK(!is_open & (opened == name + ".unfinished") & (final_name == name));
}
// ---- particles
static ParticleData particle(int i) {
  static const int pdg[4] = {0x22, -0x211, 0x3122, -0x2212};
  ParticleData p = sx_particle(PdgCode(PdgCode::from_decimal(i == 0 ? 22 : i == 1 ? -211 : i == 2 ? 3122 : -2212)), i);
  (void)pdg;
  p.set_4position(FourVector(sx_f64("t"), sx_f64("x"), sx_f64("y"), sx_f64("z")));
  if (i == 0) p.set_4momentum(FourVector(sx_f64("p0"), sx_f64("px"), sx_f64("py"), sx_f64("pz")));
  else p.set_4momentum(FourVector(2.5, 0.25 * i, -0.5, 1.125));
  p.set_formation_time(-1e9);
  p.set_cross_section_scaling_factor(sx_f64("factor"));
  HistoryData h;
  h.collisions_per_particle = sx_i32("ncoll");
  h.id_process = sx_i32("process");
  h.process_type = i & 1 ? ProcessType::Decay : ProcessType::StringHard;
  h.time_last_collision = sx_f64("last");
  h.p1 = PdgCode(0x3212);
  h.p2 = i & 1 ? PdgCode(0x0) : PdgCode::from_decimal(-321);
  p.set_history(std::move(h));
  p.set_perturbative_weight(sx_f64("weight"));
  p.set_spin_vector(FourVector(sx_f64("s0"), sx_f64("sx"), sx_f64("sy"), sx_f64("sz")));
  return p;
}
static void setup() {
  sx_add_type("gamma", 0., 0., PdgCode(0x22));
  sx_add_type("pi", 0.138, 0., PdgCode(0x211));
  sx_add_type("p", 0.938, 0., PdgCode(0x2212));
  sx_add_type("Lambda", 1.116, 0., PdgCode(0x3122));
  sx_types_done();
  label.event_number = sx_i32("event");
  label.ensemble_number = sx_i32("ensemble");
  info.impact_parameter = sx_f64("b");
  info.empty_event = sx_bool("empty");
}
static std::vector<ParticleData> fill(Particles &ps, int n) {
  std::vector<ParticleData> r;
  for (int i = 0; i < n; i++) { ParticleData p = particle(i); ps.insert(p); }
  for (const ParticleData &p : ps) r.push_back(p);
  CHECK((int)r.size() == n);
  return r;
}
ENTRY(c23_particles) {
  setup();
  const bool ext = sx_choose(0, 1, "extended");
  const int final_only = sx_choose(0, 2, "final_only"), n = sx_choose(0, 2, "n"), m = sx_choose(0, 1, "m");
  OutputParameters par;
  par.part_extended = ext;
  par.part_only_final = final_only == 0 ? OutputOnlyFinal::No : final_only == 1 ? OutputOnlyFinal::Yes : OutputOnlyFinal::IfNotEmpty;
  Particles first, second;
  const auto a = fill(first, n), b = fill(second, m);
  {
    auto out = create_binary_output("Oscar2013_bin", "Particles", "dir", par);
    out->at_eventstart(first, label, info);
    out->at_intermediate_time(second, noclock, *reinterpret_cast<DensityParameters *>(nodens), label, info);
    out->at_eventend(first, label, info);
  }
  header(ext);
  if (final_only == 0) { pblock(a, ext); pblock(b, ext); }
  if (!(final_only == 2 && info.empty_event)) pblock(a, ext); else sx_reach("skipped");
  eventend();
  end(ext ? "dir/particles_oscar2013_extended.bin" : "dir/particles_oscar2013.bin");
  sx_reach("done");
}
ENTRY(c23_collisions) {
  setup();
  const bool ext = sx_choose(0, 1, "extended"), both = sx_choose(0, 1, "startend");
  OutputParameters par;
  par.coll_extended = ext;
  par.coll_printstartend = both;
  Particles ps;
  const auto a = fill(ps, 2);
  struct Act : MockAction {
    using MockAction::MockAction;
    double w, pw;
    double get_total_weight() const override { return w; }
    double get_partial_weight() const override { return pw; }
  };
  ParticleList in{particle(0)}, outp{particle(1), particle(2)};
  Act act(in, outp, 0., ProcessType::Decay);
  act.w = sx_f64("total");
  act.pw = sx_f64("partial");
  const double density = sx_f64("density");
  {
    auto out = create_binary_output("Oscar2013_bin", "Collisions", "dir", par);
    out->at_eventstart(ps, label, info);
    out->at_interaction(act, density);
    out->at_eventend(ps, label, info);
  }
  header(ext);
  if (both) pblock(a, ext);
  chr('i');
  u32(1);
  u32(2);
  f64(density);
  f64(act.w);
  f64(act.pw);
  u32((uint32_t)ProcessType::Decay);
  line(in[0], ext);
  for (const ParticleData &p : outp) line(p, ext);
  if (both) pblock(a, ext);
  eventend();
  end(ext ? "dir/collisions_oscar2013_extended.bin" : "dir/collisions_oscar2013.bin");
  sx_reach("done");
}
ENTRY(c23_initial) {
  setup();
  const bool ext = sx_choose(0, 1, "extended");
  const int type = sx_choose(0, 2, "type");
  OutputParameters par;
  par.ic_extended = ext;
  Particles ps;
  ParticleList in{particle(0)};
  MockAction act(in, in, 0., type == 0 ? ProcessType::Fluidization : type == 1 ? ProcessType::FluidizationNoRemoval : ProcessType::Elastic);
  {
    auto out = create_binary_output("Oscar2013_bin", "Initial_Conditions", "dir", par);
    out->at_eventstart(ps, label, info);
    out->at_interaction(act, 0.);
    out->at_eventend(ps, label, info);
  }
  header(ext);
  if (type < 2) { chr('p'); u32(1); line(in[0], ext); }
  eventend();
  end(ext ? "dir/SMASH_IC_oscar2013_extended.bin" : "dir/SMASH_IC_oscar2013.bin");
  sx_reach("done");
}
ENTRY(c23_custom) {
  setup();
  OutputParameters par;
  par.quantities["Particles"] = {"perturbative_weight", "id", "spinz", "spin0", "0", "strangeness", "p0", "charge", "spinx", "z", "spiny"};
  Particles ps;
  const auto a = fill(ps, 3);
  {
    auto out = create_binary_output("Binary", "Particles", "dir", par);
    out->at_eventend(ps, label, info);
  }
  header(2);
  chr('p');
  i32(label.event_number);
  i32(label.ensemble_number);
  u32(a.size());
  if (info.empty_event) {}
  for (const ParticleData &p : a) {
    f64(p.perturbative_weight());
    i32(p.id());
    f64(p.spin_vector()[3]);
    f64(p.spin_vector()[0]);
    i32(0);
    i32(p.pdgcode().strangeness());
    f64(p.momentum()[0]);
    i32(p.type().charge());
    f64(p.spin_vector()[1]);
    f64(p.position()[3]);
    f64(p.spin_vector()[2]);
  }
  eventend();
  end("dir/particles_custom.bin");
  sx_reach("done");
}
// Lists larger than the buffer are written in pieces whose concatenation is the same.
ENTRY(c23_chunks) {
  setup();
  const int n = sx_choose(0, 4, "n"), max = sx_choose(1, 70, "max");
  OutputFormatter<ToBinary> f({"t", "pdg", "z"});
  ParticleList l;
  for (int i = 0; i < n; i++) l.push_back(particle(i & 3));
  bool refused = false, toobig = false;
  int writes = 0;
  is_open = true;
  auto w = [&](const ToBinary::type &b) { writes++; toobig |= (int)b.size() > max; sxf_fwrite(b.data(), 1, b.size(), nullptr); };
  try { details::write_in_chunk_impl<ToBinary>(l, f, w, max); } catch (std::runtime_error &) { refused = true; }
  if (refused) { CHECK((max < 40) & (n > 0) & (len == 0)); sx_reach("refused"); return; }
  CHECK(!toobig);
  if (writes > 1) sx_reach("several");
  for (int i = 0; i < n; i++) { f64(l[i].position()[0]); i32(l[i].pdgcode().get_decimal()); f64(l[i].position()[3]); }
  CHECK(pos == len);
  sx_reach("done");
}
