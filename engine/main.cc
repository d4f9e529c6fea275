#include <unistd.h>
#include "exec.h"
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
using namespace llvm;
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string jmodel(const std::vector<std::pair<std::string, std::string>>& m) {
  std::string r = "{";
  for (size_t i = 0; i < m.size(); i++) r += (i ? "," : "") + js(m[i].first) + ":" + js(m[i].second);
  return r + "}";
}
int main(int argc, char** argv) {
  Options o;
  std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
    const char* v;
    if (a == "--real") o.real = true;
    else if (a == "--progress") o.progress = true;
    else if (a == "--fork-select") o.forkSelect = true;
    else if (a == "--no-sq-cmp") o.sqCmp = false;
    else if (a == "--int-reals") o.intReals = true;
    else if ((v = val("--entry="))) o.entry = v;
    else if ((v = val("--out="))) o.out = v;
    else if ((v = val("--time="))) o.timeLimit = atof(v);
    else if ((v = val("--max-paths="))) o.maxPaths = atoll(v);
    else if ((v = val("--max-steps="))) o.maxSteps = atoll(v);
    else if ((v = val("--assert-budget="))) o.assertBudget = atof(v);
    else if ((v = val("--branch-budget="))) o.branchBudget = atof(v);
    else if ((v = val("--concrete="))) { o.concreteFile = v; o.trace = true; }
    else bc = a;
  }
  rlimit rl{6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("symx", errs()); return 3; }
  z3init(o.real);
  Exec E(M.get(), o);
  if (!o.concreteFile.empty()) {
    std::ifstream f(o.concreteFile);
    std::string n, v;
    while (f >> n >> v) E.concrete[n] = v;
  }
  auto* F = M->getFunction(o.entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", o.entry.c_str()); return 3; }
  std::string fatal;
  try {
    auto st = E.runCtors();
    E.s = st.get();
    std::vector<Val> none;
    E.pushFrame(E.compile(F), none);
    for (auto& p : E.cf) { p.second->execs = 0; p.second->insts = 0; }
    S.steps = 0;
    E.explore(std::move(st));
  } catch (Unsupported& u) {
    fatal = u.why;
    E.inconclusive.push_back(u.why);
  } catch (std::bad_alloc&) {
    E.inconclusive.push_back("out of memory");
  } catch (PathEnd& p) {
    E.inconclusive.push_back("path end outside exploration: " + p.why);
  } catch (Violation& v) {
    E.inconclusive.push_back("violation outside exploration: " + v.msg);
  }
  std::ostringstream j;
  j << "{\"entry\":" << js(o.entry) << ",\"mode\":" << js(o.real ? "real" : "exact") << ",\"wall_s\":" << E.elapsed()
    << ",\"paths\":" << S.paths << ",\"paths_cut_by_assumption\":" << S.killed << ",\"forks\":" << S.forks << ",\"instructions\":" << S.steps
    << ",\"queries\":" << S.queries << ",\"sat\":" << S.sat << ",\"unsat\":" << S.unsat << ",\"unknown\":" << S.unknown << ",\"cached\":" << S.cached
    << ",\"cvc5\":" << S.cvc5 << ",\"unknown_branches\":" << S.unknownBranches << ",\"asserts\":" << S.asserts << ",\"discharged\":" << S.discharged << ",\"folded\":" << S.folded
    << ",\"poly_zero\":" << S.polyZero << ",\"solver_s\":" << S.solverTime << ",\"max_query_s\":" << S.maxQuery;
  j << ",\"reached\":{";
  bool first = true;
  for (auto& r : E.reached) { j << (first ? "" : ",") << js(r.first) << ":" << r.second; first = false; }
  j << "},\"functions\":[";
  first = true;
  std::vector<std::pair<uint64_t, std::string>> fs;
  for (auto& p : E.cf)
    if (p.second->insts) {
      std::string d = demangle(p.second->name);
      if (d.find("smash::") != std::string::npos || d.find("sha256") != std::string::npos) fs.push_back({p.second->insts, d});
    }
  std::sort(fs.rbegin(), fs.rend());
  for (auto& f : fs) { j << (first ? "" : ",") << "[" << js(f.second) << "," << f.first << "]"; first = false; }
  j << "],\"violations\":[";
  first = true;
  for (auto& v : E.viols) {
    j << (first ? "" : ",") << "{\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"models\":[";
    for (size_t i = 0; i < v.models.size(); i++) j << (i ? "," : "") << jmodel(v.models[i]);
    j << "]}";
    first = false;
  }
  j << "],\"inconclusive\":[";
  first = true;
  std::set<std::string> seen;
  for (auto& s : E.inconclusive) if (seen.insert(s).second) { j << (first ? "" : ",") << js(s); first = false; }
  j << "],\"samples\":[";
  first = true;
  for (auto& s : E.samples) { j << (first ? "" : ",") << jmodel(s.second); first = false; }
  j << "],\"trace\":" << js(E.traceOut) << "}\n";
  if (o.out.empty()) printf("%s", j.str().c_str());
  else { std::ofstream f(o.out); f << j.str(); }
  fflush(nullptr);
  _exit(E.viols.empty() ? (E.inconclusive.empty() ? 0 : 2) : 1);
}
