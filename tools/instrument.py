#!/usr/bin/env python3
"""Lays down a copy of the crates under test in .build/conc in which every `std::`/`core::` path goes through the
scheduler's stand-ins. Only the sources change, nothing else; files are rewritten only when they differ."""
import os, re, sys
REPO = os.environ.get('INSTRUMENT_REPO', '/repo')
OUT = os.path.join(os.environ.get('VERIF_DIR', '/verif'), '.build', 'conc')
HARNESS = os.path.join(os.environ.get('VERIF_DIR', '/verif'), 'harness', 'conc')
CRATES = {'client': 'shim_std', 'engine': 'shim_std', 'engine/runtime': 'shim_rt', 'utils': 'shim_std', 'derive': None, 'stm': 'shim_stm'}
SKIP = {'tests', 'benches', 'examples', 'fuzz', 'target', 'old_fork'}

def rewrite(text, shim):
    if shim is None:
        return text
    # not in comments that begin a line
    out = []
    for line in text.split('\n'):
        if not line.lstrip().startswith('//'):
            line = re.sub(r'(?<![\w:$])(?:::)?(?:std|core|alloc)::', lambda m: ('::' if m.group(0).startswith('::') else '') + shim + '::', line)
            line = re.sub(r'\buse (?:std|core|alloc)(?= as |;)', 'use ' + shim, line)
            if shim == 'shim_rt':
                line = re.sub(r'\blibsodium_sys\b', 'shim_sodium', line)
        out.append(line)
    return '\n'.join(out)

def put(path, text, kept):
    kept.add(path)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)

kept = set()
for crate, shim in CRATES.items():
    src = os.path.join(REPO, crate)
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, REPO)
        dirs[:] = sorted(x for x in dirs if x not in SKIP and os.path.join(rel, x) not in CRATES)
        for f in sorted(files):
            p = os.path.join(d, f)
            q = os.path.join(OUT, rel, f)
            if f == 'Cargo.toml':
                t = open(p).read()
                t = re.sub(r'(?ms)^\s*\[\[(bench|example|test|bin)\]\].*?(?=^\s*\[|\Z)', '', t)
                t = re.sub(r'(?ms)^\s*\[(dev-dependencies)[^\]]*\].*?(?=^\s*\[|\Z)', '', t)
                if shim:
                    t += '\n[dependencies.%s]\npath = "%s/%s"\n' % (shim, HARNESS, shim)
                if crate == 'engine/runtime':
                    t += '\n[dependencies.shim_sodium]\npath = "%s/shim_sodium"\n' % HARNESS
                put(q, t, kept)
            elif f.endswith('.rs'):
                put(q, rewrite(open(p).read(), shim), kept)
            elif f.endswith('.md') or f.endswith('.txt'):
                put(q, open(p, errors='replace').read(), kept)
# what is no longer there must not be compiled
for d, dirs, files in os.walk(OUT):
    for f in files:
        p = os.path.join(d, f)
        if p not in kept and f.endswith(('.rs', '.toml')):
            os.remove(p)
