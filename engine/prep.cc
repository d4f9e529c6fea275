// symx-prep: links the IR of the translation units under test with the harness, replaces library
// internals that the executor models (streams, locales, number formatting) by declarations, and
// optimises the result without vectorising or unrolling.
#include <llvm/IR/Constants.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static bool starts(StringRef s, const char* p) { return s.starts_with(p); }
static bool isStream(const std::string& dn, bool rt) {
  StringRef s(dn);
  // strip a leading return type of function templates: look for the qualified name
  static const char* cls[] = {"std::basic_ostream<", "std::basic_istream<", "std::basic_iostream<", "std::basic_ios<", "std::ios_base::", "std::locale", "std::basic_streambuf<",
                              "std::__cxx11::basic_stringstream<", "std::__cxx11::basic_ostringstream<", "std::__cxx11::basic_istringstream<", "std::__cxx11::basic_stringbuf<",
                              "std::basic_ofstream<", "std::basic_ifstream<", "std::basic_fstream<", "std::basic_filebuf<", "std::ctype<", "std::__cxx11::to_string", "std::use_facet", "std::has_facet"};
  for (auto c : cls) if (starts(s, c)) return true;
  static const char* fn[] = {"std::basic_ostream<char, std::char_traits<char>>& std::operator<<", "std::basic_istream<char, std::char_traits<char>>& std::operator>>",
                             "std::basic_ostream<char, std::char_traits<char>>& std::endl", "std::basic_ostream<char, std::char_traits<char>>& std::flush", "std::basic_ostream<char, std::char_traits<char>>& std::ends",
                             "std::basic_ostream<char, std::char_traits<char>>& std::__ostream_insert", "std::basic_istream<char, std::char_traits<char>>& std::getline",
                             "std::basic_istream<char, std::char_traits<char>>& std::ws", "std::operator<<(", "std::operator>>(", "std::operator<<[",
                             "std::basic_ostream<char, std::char_traits<char> >& std::", "std::basic_istream<char, std::char_traits<char> >& std::"};
  for (auto c : fn) if (starts(s, c)) return true;
  (void)rt;
  return false;
}
int main(int argc, char** argv) {
  std::string out;
  std::set<std::string> keep;
  std::vector<std::string> in, strip, noinl, dropctor;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto v = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
    if (auto p = v("--out=")) out = p;
    else if (auto p = v("--keep=")) keep.insert(p);
    else if (auto p = v("--strip=")) strip.push_back(p);
    else if (auto p = v("--noinline=")) noinl.push_back(p);
    else if (auto p = v("--dropctor=")) dropctor.push_back(p);
    else if (a == "--merge") {
      // fewer, larger paths: turn small branches into selects
      static const char* o[] = {"symx-prep", "-phi-node-folding-threshold=60", "-two-entry-phi-node-folding-threshold=60", "-simplifycfg-branch-fold-threshold=20", "-bonus-inst-threshold=20"};
      cl::ParseCommandLineOptions(5, o);
    }
    else in.push_back(a);
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = std::make_unique<Module>("linked", ctx);
  Linker L(*M);
  for (auto& f : in) {
    auto m = parseIRFile(f, err, ctx);
    if (!m) { err.print("symx-prep", errs()); return 1; }
    std::string base = f.substr(f.rfind('/') == std::string::npos ? 0 : f.rfind('/') + 1);
    bool rt = base.compare(0, 3, "rt.") == 0;
    for (auto& F : *m) {
      if (F.isDeclaration()) continue;
      if (F.hasFnAttribute(Attribute::OptimizeNone)) F.removeFnAttr(Attribute::OptimizeNone);
      std::string dn = demangle(F.getName().str());
      if (rt && (F.hasExternalLinkage() && F.getName().starts_with("_Z") )) {
        if (!F.isWeakForLinker()) continue;  // strong definitions of the runtime model
      }
      bool kill = isStream(dn, rt) && F.isWeakForLinker();
      if (isStream(dn, rt) && F.hasAvailableExternallyLinkage()) kill = true;
      for (auto& p : strip) if (StringRef(dn).starts_with(p) || F.getName() == p) kill = !rt;
      if (kill) {
        F.deleteBody();
        F.setComdat(nullptr);
        F.setLinkage(GlobalValue::ExternalLinkage);
        F.setDSOLocal(false);
        continue;
      }
      for (auto& p : noinl) if (StringRef(dn).starts_with(p) || F.getName() == p) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    }
    if (auto* gc = m->getGlobalVariable("llvm.global_ctors")) {
      bool drop = false;
      for (auto& p : dropctor) if (base.find(p) != std::string::npos) drop = true;
      if (drop) gc->eraseFromParent();
    }
    // Strong symbols of a unit win over weak ones of the runtime, whatever the order.
    if (L.linkInModule(std::move(m), rt ? Linker::Flags::None : Linker::Flags::None)) { errs() << "link error in " << f << "\n"; return 1; }
  }
  for (auto* n : {"malloc", "free", "memcpy", "memset", "memmove", "strlen"}) (void)n;
  internalizeModule(*M, [&](const GlobalValue& g) {
    if (keep.count(g.getName().str())) return true;
    if (g.getName().starts_with("_ZTI") || g.getName().starts_with("_ZTS") || g.getName().starts_with("_ZTV")) return true;
    return g.getName().starts_with("llvm.");
  });
  PipelineTuningOptions pto;
  pto.LoopVectorization = pto.SLPVectorization = pto.LoopUnrolling = pto.LoopInterleaving = false;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB(nullptr, pto);
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager P0;
  P0.addPass(GlobalDCEPass());
  P0.run(*M, MAM);
  const char* lv = getenv("SYMX_OPT");
  ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(lv && *lv == '1' ? OptimizationLevel::O1 : OptimizationLevel::O2);
  MPM.run(*M, MAM);
  std::error_code ec;
  raw_fd_ostream os(out, ec, sys::fs::OF_None);
  if (ec) return 1;
  WriteBitcodeToFile(*M, os);
  return 0;
}
