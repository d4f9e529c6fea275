#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only ENTRY] [--keep] [--verbose]

Solver-based check of one property: lowers the current sources of /repo and the property's harnesses
(harness/<id>*.cc) to LLVM IR, executes the harness entries symbolically with build/symx, replays every
counterexample against the natively compiled code and writes evidence/<id>.json.
Exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = V + '/build'
CLANG = '/usr/bin/clang++-18'
INC = ['-I' + V + '/harness/shim', '-I' + V + '/harness', '-I' + REPO + '/src/include', '-I' + REPO + '/src', '-isystem', REPO + '/3rdparty/Cuba-4.2.2',
       '-isystem', REPO + '/3rdparty/yaml-cpp-0.8.0/include', '-isystem', '/usr/include/eigen3', '-isystem', V + '/stubs']
COMMON = ['-std=c++17', '-DNDEBUG', '-DLITTLE_ENDIAN_ARCHITECTURE', '-DSX_VERIF', '-fno-math-errno', '-ffp-contract=off', '-w']
IRFLAGS = ['-O2', '-Xclang', '-disable-llvm-passes', '-fno-threadsafe-statics', '-fno-jump-tables', '-emit-llvm', '-c', '-fno-stack-protector', '-fno-access-control']
NATFLAGS = ['-O1', '-g0', '-fPIC', '-fno-access-control', '-fsanitize=address', '-fno-omit-frame-pointer', '-c']
JOBS = int(os.environ.get('SX_JOBS', '8'))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def files_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        ps = glob.glob(REPO + '/src/include/smash/*.h') + glob.glob(V + '/harness/shim/**/*.h*', recursive=True) + glob.glob(V + '/harness/*.h') + glob.glob(V + '/harness/fsshim/*') + [REPO + '/src/' + x for p in glob.glob(V + '/harness/*') if os.path.isfile(p) for x in re.findall(r'#include "(\w+\.cc)"', open(p).read())] + glob.glob(V + '/stubs/**/*.h', recursive=True)
        _hdr = files_hash([p for p in ps if os.path.isfile(p)])
    return _hdr

def compile_unit(src, kind, extra, work):
    """kind 'bc' or 'o'; cached by content of everything it depends on."""
    flags = COMMON + (IRFLAGS if kind == 'bc' else NATFLAGS if kind == 'o' else [f for f in NATFLAGS if 'sanitize' not in f]) + extra + INC
    cc = CLANG if kind == 'bc' else 'g++'
    if os.path.basename(src) == 'rt.cc':
        flags = flags + ['-D_GLIBCXX_EXTERN_TEMPLATE=0']
    else:
        flags = flags + ['-include', 'sx_random.h']
    key = hashlib.sha256((header_hash() + files_hash([src]) + ' '.join(flags) + cc).encode()).hexdigest()[:24]
    cache = BUILD + '/cache'
    os.makedirs(cache, exist_ok=True)
    out = f'{cache}/{os.path.splitext(os.path.basename(src))[0]}.{key}.{kind}'
    if not os.path.exists(out):
        tmp = f'{work}/{os.path.basename(src)}.{key}.{kind}'
        r = sh([cc] + flags + [src, '-o', tmp])
        if r.returncode:
            raise RuntimeError(f'compilation of {src} failed:\n{r.stdout[-3000:]}')
        os.replace(tmp, out) if os.stat(tmp).st_dev == os.stat(cache).st_dev else shutil.move(tmp, out)
    return out

class Harness: pass

def parse(path, tier):
    h = Harness()
    h.path, h.src, h.entries, h.flags, h.bounds, h.assumes, h.prep, h.natlibs = path, [], [], [], [], [], [], []
    for line in open(path):
        m = re.match(r'//\s*@(\w+)\s*(.*?)\s*$', line)
        if not m: continue
        k, v = m.groups()
        if k == 'src': h.src += v.split()
        elif k == 'flags': h.flags += [x.replace('@V@', V) for x in v.split()]
        elif k == 'prep': h.prep += v.split()
        elif k == 'libs': h.natlibs += v.split()
        elif k == 'bound': h.bounds.append(v)
        elif k == 'assume': h.assumes.append(v)
        elif k == 'entry':
            t = v.split()
            e = dict(name=t[0], mode='exact', time=120, ab=20, bb=3, paths=200000, steps=20000000, reach=[], tier='quick', known=None, opts=[], native=1)
            for x in t[1:]:
                if x in ('real', 'exact'): e['mode'] = x
                elif x == 'thorough': e['tier'] = 'thorough'
                elif x.startswith('reach='): e['reach'] = x[6:].split(',')
                elif x.startswith('known='): e['known'] = x[6:]
                elif x.startswith('--'): e['opts'].append(x)
                elif '=' in x:
                    a, b = x.split('=', 1)
                    e[a] = float(b) if a in ('time', 'ab', 'bb') else int(b)
            if e['tier'] == 'quick' or tier == 'thorough': h.entries.append(e)
    if tier == 'thorough': h.flags.append('-DSX_THOROUGH')
    return h

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, keep, verbose, nonative = None, False, False, False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--only': only = a[i + 1]; i += 1
        elif a[i] == '--keep': keep = True
        elif a[i] == '--verbose': verbose = True
        elif a[i] == '--no-native': nonative = True
        i += 1
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(BUILD, exist_ok=True)
    r = sh(['bash', V + '/engine/build.sh'])
    if r.returncode or not os.path.exists(BUILD + '/symx'):
        print('engine build failed\n' + r.stdout); return 3
    hs = [parse(p, tier) for p in sorted(glob.glob(f'{V}/harness/{prop}*.cc'))]
    if not hs:
        print('no harness for ' + prop); return 3
    work = tempfile.mkdtemp(prefix=f'sx_{prop}_', dir=BUILD)
    try:
        return run(prop, tier, seed, hs, work, only, verbose, nonative, t0, keep)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print('work directory', work)

def run(prop, tier, seed, hs, work, only, verbose, nonative, t0, keep):
    ex = cf.ThreadPoolExecutor(JOBS)
    rt = ex.submit(compile_unit, V + '/harness/rt.cc', 'bc', [], work)
    mains = ex.submit(compile_unit, V + '/harness/replay.cc', 'o', [], work)
    missing = []
    for h in hs:
        h.units = [REPO + '/src/' + s for s in h.src]
        for u in h.units:
            if not os.path.exists(u): missing.append(u)
        h.bcf = [ex.submit(compile_unit, u, 'bc', h.flags, work) for u in h.units + [h.path] if os.path.exists(u)]
    try:
        for h in hs:
            out = f'{work}/{os.path.basename(h.path)}.bc'
            bcs = [f.result() for f in h.bcf]
            rtc = f'{work}/rt.bc'
            if not os.path.exists(rtc): shutil.copy(rt.result(), rtc)
            r = sh([BUILD + '/symx-prep', '--out=' + out] + ['--keep=' + e['name'] for e in h.entries] + h.prep + bcs + [rtc])
            if r.returncode:
                print('IR preparation failed:', r.stdout[-2000:]); return 3
            h.bc = out
    except RuntimeError as e:
        print(e); return 3
    tcomp = time.time() - t0
    # symbolic execution of all entries in parallel; native objects are compiled after they are queued
    def symrun(h, e):
        out = f'{work}/{e["name"]}.json'
        cmd = [BUILD + '/symx', f'--entry={e["name"]}', f'--out={out}', f'--time={e["time"]}', f'--assert-budget={e["ab"]}', f'--branch-budget={e["bb"]}',
               f'--max-paths={e["paths"]}', f'--max-steps={e["steps"]}'] + (['--real'] if e['mode'] == 'real' else []) + e['opts'] + [h.bc]
        try:
            r = sh(cmd, timeout=e['time'] * 1.5 + 60)
            log = r.stdout
        except subprocess.TimeoutExpired:
            return dict(entry=e['name'], inconclusive=['hard timeout'], violations=[], reached={}, functions=[], samples=[], wall_s=e['time'])
        try:
            j = json.load(open(out))
        except Exception:
            return dict(entry=e['name'], inconclusive=['executor failed: ' + log[-400:]], violations=[], reached={}, functions=[], samples=[], wall_s=0)
        j['log'] = log
        return j
    jobs = []
    allent = [(h, e) for h in hs for e in h.entries if not only or e['name'] == only]
    for h, e in sorted(allent, key=lambda x: -x[1]['time']):
        jobs.append((h, e, ex.submit(symrun, h, e)))
    natives = {}
    def native(h, kind='o'):
        if (h.path, kind) in natives: return natives[h.path, kind]
        try:
            m = mains if kind == 'o' else ex.submit(compile_unit, V + '/harness/replay.cc', kind, [], work)
            objs = [f.result() for f in [ex.submit(compile_unit, u, kind, h.flags, work) for u in h.units + [h.path] if os.path.exists(u)]] + [m.result()]
            exe = f'{work}/{os.path.basename(h.path)}.replay-{kind}'
            link = ['g++', '-fsanitize=address'][:2 if kind == 'o' else 1] + ['-rdynamic', '-no-pie', '-o', exe] + objs + ['-Wl,-z,muldefs', '-Wl,--no-demangle'] + ['-l' + l for l in h.natlibs] + ['-ldl']
            r = sh(link)
            # whatever the units refer to but no unit defines: zeroed data, functions that stop the replay
            und = sorted(set(re.findall(r"undefined reference to [`']([^']+)'", r.stdout)))
            if r.returncode and not und: raise RuntimeError('native link failed: ' + r.stdout[-2000:])
            if und:
                dem = sh(['c++filt'], input='\n'.join(und)).stdout.splitlines()
                asm = ''
                for u, d in zip(und, dem):
                    fn = '(' in d or not u.startswith('_Z')
                    asm += f'.weak {u}\n' + (f'.text\n{u}: lea 9f(%rip), %rdi\njmp sx_missing\n9: .asciz "{u}"\n' if fn else f'.data\n.balign 16\n{u}: .zero 1024\n')
                with open(f'{work}/missing.s', 'w') as f: f.write(asm + '.section .note.GNU-stack,"",@progbits\n')
                r = sh(link + [f'{work}/missing.s', '-Wl,--unresolved-symbols=ignore-all'])
                if r.returncode: raise RuntimeError('native link failed: ' + r.stdout[-2000:])
        except RuntimeError as x:
            print('warning:', x); exe = None
        natives[h.path, kind] = exe
        return exe
    def replay(h, e, model, tag, uninit=False):
        exe = native(h, 'ov' if uninit else 'o')
        if not exe: return None, 'no native build'
        f = f'{work}/{e["name"]}.{tag}.inputs'
        with open(f, 'w') as o:
            for k, v in model.items(): o.write(f'{k} {v}\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=90:detect_odr_violation=0')
        if e['mode'] == 'real': env['SX_REAL'] = '1'
        scratch = tempfile.mkdtemp(prefix='scr_', dir=work)
        pre = ['valgrind', '-q', '--error-exitcode=91', '--undef-value-errors=yes', '--leak-check=no'] if uninit else []
        try:
            r = subprocess.run(pre + [exe, f, e['name']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env, cwd=scratch)
            rc, out = r.returncode, r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, out = 124, 'timeout (does not terminate)'
        return rc, out
    if not nonative and any(e['native'] for _, e in allent):
        for h in hs: native(h)
    results = [(h, e, f.result()) for h, e, f in jobs]
    known = json.load(open(V + '/known_findings.json'))['findings'] if os.path.exists(V + '/known_findings.json') else []
    rdir = f'{V}/replay/{prop}'
    shutil.rmtree(rdir, ignore_errors=True)
    problems, viols, notes, validated, diverged, knownhit = [], [], [], 0, [], []
    for h, e, j in results:
        for v in j['violations']:
            hit = None
            for n, m in enumerate(v['models']):
                rc, out = replay(h, e, m, f'v{len(viols)}_{n}') if not nonative else (88, 'not replayed')
                if rc is not None and rc not in (0, 77, 78, 79, 127): hit = (m, rc, out); break
                if 'uninitialised' in v['msg'] and not nonative:
                    rc, out = replay(h, e, m, f'u{len(viols)}_{n}', True)
                    if rc == 91 and 'uninitialised value' in out: hit = (m, rc, out); break
            if hit is None:
                # bounded memory-model violations that have no native symptom are not reported
                notes.append(f'{e["name"]}: counterexample not reproduced natively: {v["msg"]} {v["models"][:1]} rc={rc} out={out[-300:] if out else ""}')
                continue
            kf = next((k for k in known if k['property'] == prop and k['entry'] == e['name'] and re.search(k['match'], v['msg'])), None)
            if kf:
                knownhit.append((kf, v, hit)); continue
            viols.append((h, e, v, hit))
        if not nonative and e['native'] and not j['violations']:
            for n, m in enumerate(j['samples'][:3]):
                rc, out = replay(h, e, m, f's{n}')
                if rc in (0, 77, 78): validated += rc == 0
                else: diverged.append(f'{e["name"]}: sample {m} natively ended {rc}: {out[-300:]}')
        for w in e['reach']:
            if w not in j['reached'] and not j['violations']: problems.append(f'{e["name"]}: witness {w} not reached (vacuous)')
        for s in j['inconclusive']: problems.append(f'{e["name"]}: undecided: {s}')
    # evidence
    tot = lambda k: sum(j.get(k, 0) for _, _, j in results)
    fns = {}
    for _, _, j in results:
        for n, c in j['functions']: fns[n] = fns.get(n, 0) + c
    samples = []
    for h, e, j in results:
        for m in j['samples'][:1]: samples.append(dict(entry=e['name'], inputs=m))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viols), assumptions=sorted(set(x for h in hs for x in h.assumes)),
              coverage=dict(states=tot('paths'), transitions=tot('instructions'), traces_validated_against_impl=validated, samples=samples[:8],
                            explanation='states = symbolic paths (each one covers every input value satisfying its path condition); transitions = IR instructions executed symbolically; every assertion on every path is decided by the SMT solver for all values',
                            entries=[dict(entry=e['name'], mode='real arithmetic (rounding abstracted)' if e['mode'] == 'real' else 'bit-precise (IEEE-754 / two\'s complement)', paths=j.get('paths', 0), pruned_by_assumption=j.get('paths_cut_by_assumption', 0),
                                          assertions=j.get('asserts', 0), discharged_by_solver=j.get('discharged', 0), discharged_by_normaliser=j.get('poly_zero', 0), constant_folded=j.get('folded', 0), queries=j.get('queries', 0), sat=j.get('sat', 0), unsat=j.get('unsat', 0), unknown=j.get('unknown', 0),
                                          solver_s=round(j.get('solver_s', 0), 2), wall_s=round(j.get('wall_s', 0), 2), witnesses=j['reached'], undecided=j['inconclusive']) for h, e, j in results],
                            functions_encoded=sorted(fns, key=lambda n: -fns[n])[:60], functions_encoded_count=len(fns), queries_discharged=tot('queries'), solver_s=round(tot('solver_s'), 2), compile_s=round(tcomp, 2),
                            bounds=[x for h in hs for x in h.bounds], undecided=problems, not_reproduced=notes, sample_divergences=diverged, units=sorted(set(s for h in hs for s in h.src))))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for h, e, j in results:
        print(f'{e["name"]:34s} {e["mode"]:5s} paths={j.get("paths",0)} asserts={j.get("asserts",0)} discharged={j.get("discharged",0)} queries={j.get("queries",0)} solver={j.get("solver_s",0):.1f}s wall={j.get("wall_s",0):.1f}s viol={len(j["violations"])}')
        if verbose and j.get('log'): print(j['log'][-3000:])
    print(f'{prop}: compile {tcomp:.1f}s total {time.time()-t0:.1f}s, native traces validated {validated}')
    for n in problems: print('NOTE', n[:400])
    for n in notes: print('NOTE', n[:600])
    for n in diverged: print('NOTE sample divergence', n[:80] + ' ... ' + n[-200:])
    for kf, v, hit in knownhit: print(f'KNOWN-FINDING: property={prop} {kf["what"]}')
    if viols:
        os.makedirs(rdir, exist_ok=True)
        for n, (h, e, v, (m, rc, out)) in enumerate(viols):
            p = f'{rdir}/{n}_{e["name"]}.json'
            json.dump(dict(property=prop, harness=os.path.relpath(h.path, V), entry=e['name'], mode=e['mode'], message=v['msg'], where=v['where'], inputs=m, native_exit=rc, native_output=out[-3000:],
                           rerun=f'python3 {V}/replay.py {p}'), open(p, 'w'), indent=1)
            print(f'  {e["name"]}: {v["msg"]}')
            print(f'  native: {out.strip()[-300:]}')
            print(f'VIOLATION property={prop} replay={p}')
        return 1
    if problems and os.environ.get('SX_STRICT'): return 2
    return 0
if __name__ == '__main__':
    sys.exit(main())
