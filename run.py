#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

usage: run.py PROPERTY [--tier quick|thorough] [--case FAMILY:INDEX] [--list] [--only FAMILY]
Exit status 0: the property held on everything explored; 1: a VIOLATION line was printed; 2: the check could not run.
"""
import os, sys, resource, subprocess, shutil, json, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
H = os.path.join(VERIF, 'harness')

# property -> (variant, list of translation units beside engine)
LOCK = ['engine', 'drive', 'ref', 'cli']
PROPS = {}
def prop(p, unit, variant='plain', base=LOCK):
    PROPS[p] = (variant, base + [unit])
for p in ['C01', 'C10', 'C11', 'C12', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C21', 'C28', 'C18', 'C19', 'C20', 'C22', 'C15', 'C25', 'C16', 'C17', 'C23', 'C24', 'C27', 'C29']:
    prop(p, 'p' + p)

for p in ['C13', 'C14', 'C30']:
    prop(p, 'p' + p, 'sched', ['engine', 'sched', 'world', 'ref', 'schedcommon'])
prop('C26', 'pC26', 'asan')
TECHNIQUE = {'C23': 'cli', 'C24': 'cli', 'C13': 'sched', 'C14': 'sched', 'C30': 'sched'}

VARIANTS = {
    'plain': {'cxx': 'g++', 'flags': '-O1 -g0 -fwrapv', 'link': ''},
    # every memory access and atomic operation of the repository's code calls the hooks in sched.cpp
    'sched': {'cxx': 'g++', 'flags': '-O1 -g1 -fwrapv', 'rflags': '-fsanitize=thread', 'link': '', 'wrap': ''},
    'asan': {'cxx': 'g++', 'flags': '-O2 -g1 -fwrapv -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS', 'link': '-fsanitize=address'},
}

def build(p, variant, units):
    v = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(os.path.join(out, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(out, p, 'bin'), exist_ok=True)
    inc = f'-I{REPO}/src/include -I{REPO}/src/util/include -I{REPO}/src/fingerprint/include'
    srcs = []
    for d in ['src', 'src/fingerprint', 'src/util']:
        dd = os.path.join(REPO, d)
        for f in sorted(os.listdir(dd)):
            if f.endswith('.cpp') and f != 'FingerprintLONG.cpp':
                srcs.append(os.path.join(dd, f))
    mk = [f'CXX={v["cxx"]}', f'FL=-std=c++20 -pthread {v["flags"]} {inc}', f'RF={v.get("rflags", "")}', '']
    objs, rules = [], []
    for s in srcs:
        o = f'{out}/obj/R_{os.path.basename(s)[:-4]}.o'
        objs.append(o)
        extra = ''
        src = s
        if os.path.basename(s) == 'Funge.cpp':
            extra = '-Dmain=funge_real_main'
        if os.path.basename(s) == 'FingerprintStrategy.cpp':
            rules.append(f"{o}: {s}\n\tsed 's/^.*FingerprintLONG.*$$//' {s} > {out}/obj/FS.cpp\n\t$(CXX) $(FL) $(RF) -w -MMD -MP -c {out}/obj/FS.cpp -o $@\n")
            continue
        rules.append(f'{o}: {src}\n\t$(CXX) $(FL) $(RF) -w {extra} -MMD -MP -c {src} -o $@\n')
    wrap = v.get('wrap', '-Wl,--wrap=_ZN5Funge11FungeRunner4tickEv')
    hobjs = []
    for u in units:
        o = f'{out}/obj/H_{u}.o'
        hobjs.append(o)
        rules.append(f'{o}: {H}/{u}.cpp\n\t$(CXX) $(FL) -Wall -Wextra -MMD -MP -c {H}/{u}.cpp -o $@\n')
    exe = f'{out}/{p}/bin/{p}'
    # slow translation units first
    allo = hobjs + objs
    mk.append(f'{exe}: {" ".join(allo)}\n\t$(CXX) -pthread -rdynamic -Wl,-z,now {wrap} {v["link"]} -o $@ {" ".join(allo)} -ldl\n')
    mk += rules
    mk.append(f'-include {out}/obj/*.d\n')
    mf = f'{out}/{p}.mk'
    text = '\n'.join(mk)
    with open(mf, 'w') as f:
        f.write(text)
    stamp = f'{out}/flags'
    sig = v['cxx'] + v['flags'] + v.get('rflags', '') + REPO
    if not os.path.exists(stamp) or open(stamp).read() != sig:
        for f in os.listdir(f'{out}/obj'):
            os.unlink(f'{out}/obj/{f}')
        open(stamp, 'w').write(sig)
    r = subprocess.run(['make', '-s', '-j10', '-f', mf, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-8000:])
        print('the check could not be built')
        sys.exit(2)
    if r.stdout.strip():
        sys.stdout.write(r.stdout[-3000:])
    fing = f'{out}/{p}/fing'
    shutil.rmtree(fing, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, 'fing'), fing)
    extra = os.path.join(H, 'fing', p)
    if os.path.isdir(extra):
        for f in os.listdir(extra):
            shutil.copy(os.path.join(extra, f), fing)
    return exe

def main():
    a = sys.argv[1:]
    p = a.pop(0)
    if p == '--setup':
        for q in PROPS:
            build(q, *PROPS[q])
        return 0
    tier = 'quick'
    rest = []
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--build-only':
            variant, units = PROPS[p]
            build(p, variant, units)
            return 0
        else:
            rest.append(x)
    variant, units = PROPS[p]
    exe = build(p, variant, units)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cmd = [exe, '--prop', p, '--tier', tier, '--known', os.path.join(VERIF, 'known_findings.txt'),
           '--replays', os.path.join(BUILD, 'replay')]
    if not any(x in ('--case', '--list', '--only') for x in rest):
        cmd += ['--evidence', os.path.join(VERIF, 'evidence', p + '.json')]
    if '--deadline' not in rest:
        cmd += ['--deadline', '300' if tier == 'quick' else '780']
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    # a small call stack, so that unbounded recursion shows
    small = (lambda: resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))) if variant == 'asan' else None
    r = subprocess.run(cmd + rest, cwd='/', preexec_fn=small)
    return r.returncode if r.returncode in (0, 1) else 2

if __name__ == '__main__':
    sys.exit(main())
