#!/usr/bin/env python3
"""mutate.py <mutants file> [name...]: applies each mutant of the file to a scratch copy of /repo, builds the
simulators against it and runs the checks named in its header; prints which of them report a violation.

File format: '## name C01,C02 free text' followed by blocks '<<<< file [n]\\nold\\n====\\nnew\\n>>>>'."""
import sys, re, subprocess, os, time
SRC = os.environ.get('MUT_SRC', '/repo'); WT = '/tmp/mut'; TGT = '/tmp/simm'; WORK = '/tmp/mutw'; VD = '/tmp/mutvd'
def exe_of(c): return 'simnet' if 'C14' <= c <= 'C20' else 'simstore' if c in ('C24','C25') else 'simmpc'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
spec = open(sys.argv[1]).read(); want = sys.argv[2:]
if not os.path.isdir(WT + '/.git'):
    print(sh(f'git clone -q {SRC} {WT}').stderr)
sh(f'git -C {WT} fetch -q {SRC} HEAD; git -C {WT} checkout -q -f FETCH_HEAD; mkdir -p {VD}/evidence {VD}/replays {WORK}; cp -f /verif/known_findings.json {VD}/')
sh(f'rsync -a --delete --exclude target /verif/sim/ {WORK}/ || (rm -rf {WORK} && cp -a /verif/sim {WORK})')
sh(f"cd {WORK} && sed -i 's#/repo/#{WT}/#g' */Cargo.toml && for f in $(grep -rl '\"/repo' --include=*.rs .); do sed -i 's#\"/repo#\"{WT}#' $f; done")
for m in re.split(r'^## ', spec, flags=re.M)[1:]:
    head, body = m.split('\n', 1); name, checks = head.split()[:2]
    if want and name not in want: continue
    sh(f'git -C {WT} checkout -q -- .')
    try:
        for f, n, old, new in re.findall(r'<<<< (\S+)(?: (\d+))?\n(.*?)\n====\n(.*?)\n?>>>>', body, re.S):
            p = f'{WT}/{f}'; s = open(p).read()
            if n:
                q = -1
                for _ in range(int(n)): q = s.index(old, q + 1)
                s = s[:q] + new + s[q + len(old):]
            else:
                assert s.count(old) == 1, (f, s.count(old))
                s = s.replace(old, new)
            open(p, 'w').write(s)
    except (AssertionError, ValueError) as e:
        print(f'{name}: BAD EDIT {e}', flush=True); continue
    b = sh(f'cd {WORK} && CARGO_TARGET_DIR={TGT} nice cargo build --release --offline ' + ' '.join('-p ' + e for e in sorted({exe_of(c) for c in checks.split(',')})))
    if b.returncode:
        print(f'{name}: NO BUILD\n' + '\n'.join([l for l in b.stderr.split('\n') if 'error' in l][:5]), flush=True); continue
    out = []
    for c in checks.split(','):
        exe = exe_of(c)
        t = time.time()
        r = sh(f'VERIF_DIR={VD} VERIF_SEED={os.environ.get("SEED","1")} nice {TGT}/release/{exe} check {c} quick')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        out.append(f'{c}={"CAUGHT" if r.returncode == 1 and v else "miss" if r.returncode == 0 else "rc%d" % r.returncode}({time.time()-t:.0f}s)')
        open(f'/tmp/mutout.{name}.{c}', 'w').write(r.stdout + r.stderr)
    print(f'{name}: ' + ' '.join(out) + '   ' + ' '.join(head.split()[2:]), flush=True)
sh(f'git -C {WT} checkout -q -- .')
