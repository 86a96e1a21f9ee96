#!/usr/bin/env python3
"""Mutation analysis: how many small changes that the existing tests let through do the checks see?

mutate.py --n 200 --seed 1 --workers 4 --out /tmp/mut/log.jsonl [--file src/solver.rs] [--scale 0.15]

Works on copies of /repo and of the harness below /tmp/mut; nothing registered in MANIFEST.json uses it.
"""
import argparse, json, os, queue, random, re, shutil, subprocess, threading

ROOT = '/tmp/mut'
REPO = '/repo'
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', CARGO_PROFILE_DEV_DEBUG='0')

# checks that look at a file, most likely first
RELEVANT = [
    ('src/solver.rs', 'S01 S02 S03 S05 G02'),
    ('src/board/canonicalization.rs', 'T03 T04 T01 T02'),
    ('src/generator.rs', 'G01 G02 G03 G04'),
    ('src/board/sudoku.rs', 'F01 F02 F03 F04 F05 F06 S01 S02 S03 S04 T01 T02 G01 G02 G03 G04 B02'),
    ('src/board/grid_state.rs', 'R04 R01 R03 F05 F06 B02'),
    ('src/board/cell_state.rs', 'R04 R03 R01 B02'),
    ('src/board/positions.rs', 'B02 F01 F02 B01 R01 R02 R03 R04 F05 S01 T03'),
    ('src/board/', 'B02 B01 R04 R01 S01'),
    ('src/bitset.rs', 'B01 R01 R02 R04 B02'),
    ('src/errors.rs', 'F01 F02 F03 F04 F06'),
    ('src/strategy/deduction.rs', 'R02 R01 R04'),
    ('src/strategy/solver.rs', 'R04 R01 R02 R03'),
    ("src/strategy", "R01 R02 R03 R04 C01"),
    ('src/helper.rs', 'S01 R01 R02 R04 B01 B02 T03 S05'),
    ('src/', 'S01 T03 R01 R02 R04 B02 B01 S05 F03'),
]

SWAPS = [
    (r' == ', [' != ']), (r' != ', [' == ']),
    (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' % ', ' * ']), (r' % ', [' / ']),
    (r' & ', [' | ', ' ^ ']), (r' \| ', [' & ', ' ^ ']), (r' \^ ', [' | ', ' & ']), (r' << ', [' >> ']), (r' >> ', [' << ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' \|= ', [' &= ', ' ^= ']), (r' &= ', [' |= ', ' ^= ']),
    (r'(?<![\w.])!(?=[\w(])', ['']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\.\.=', ['..']), (r'\.\.(?![=.])(?=\w)', ['..=']),
    (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['{}']), (r'\bbreak;', ['{}']),
    (r'\bmin\b', ['max']), (r'\bmax\b', ['min']),
    (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']),
    (r'\.is_some\(', ['.is_none(']), (r'\.is_none\(', ['.is_some(']),
    (r'\.is_ok\(', ['.is_err(']), (r'\.is_err\(', ['.is_ok(']),
    (r'\brow\b', ['col']), (r'\bcol\b', ['row']), (r'\bblock\b', ['row']), (r'\bband\b', ['stack']), (r'\bstack\b', ['band']),
    (r'Row\b', ['Col']), (r'Col\b', ['Row']), (r'Some\(\w+\)(?=[,)\s]*$)', ['None']),
    (r'\.union\(', ['.xor(']), (r'\.without\(', ['.union(']), (r'\.overlap\(', ['.union(']), (r'\.overlaps\(', ['.is_disjoint_with(']),
    (r'\bif (?!let)(?=[^{]*\{\s*$)', ['if true || ', 'if false && ']),
    (r'\bwhile (?!let)(?=[^{]*\{\s*$)', ['while false && ']),
]
HEX = r'\b0[xo][0-9a-fA-F_]+\b|\b0b[01_]+\b'
DEC = r'(?<![\w.])\d[\d_]*(?![\w.]*[a-zA-Z(])(?!\.\d)'


# not reachable, or not implemented
DEAD = ['avoidable_rectangles.rs', 'almost_locked_sets.rs', 'grid_state.rs']


def lines_of(path):
    """(line number, text) of code outside tests and comments"""
    out = []
    comment = False
    for i, l in enumerate(open(path).read().split('\n')):
        if '#[cfg(test)]' in l:
            break
        t = l.strip()
        if '/*' in l:
            comment = True
        if comment:
            comment = '*/' not in l
            continue
        if not t or t.startswith('//') or t.startswith('#') or t.startswith('use ') or t.startswith('pub use') or 'assert' in t or '│' in t:
            continue
        out.append((i, l))
    return out


def tables(repo):
    """single wrong entries in lookup tables: some bits lost or gained, a neighbour's value"""
    res = []
    for d, _, fs in os.walk(repo + '/src'):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), repo)
            if not f.endswith('.rs') or f in DEAD:
                continue
            for i, l in lines_of(os.path.join(d, f)):
                nums = list(re.finditer(HEX + '|' + r'(?<![\w.])\d+(?=[,)\]])', l))
                if len(nums) < 6:
                    continue
                for k, m in enumerate(nums):
                    rng = random.Random(f'{rel}{i}{k}')
                    t = m.group().replace('_', '')
                    base = 8 if t[:2] == '0o' else 0
                    v = int(t[2:] if base else t, base or 0) if base else int(t, 0)
                    new = {v & ~(7 << 3 * rng.randrange(9)), v & ~(1 << rng.randrange(max(1, v.bit_length()))),
                           int(nums[k - 1].group().replace('_', ''), 0)} - {v}
                    for w in new:
                        res.append((rel, i, l, l[:m.start()] + str(w) + l[m.end():], 'table'))
    return res


def mutants(repo, only):
    res = []
    for d, _, fs in os.walk(repo + '/src'):
        for f in sorted(fs):
            path = os.path.join(d, f)
            rel = os.path.relpath(path, repo)
            if not f.endswith('.rs') or f in DEAD or only and rel not in only:
                continue
            for i, l in lines_of(path):
                code = l.split(' //')[0]
                seen = set()
                def add(new, op):
                    if new != l and new not in seen:
                        seen.add(new)
                        res.append((rel, i, l, new, op))
                for pat, reps in SWAPS:
                    for m in re.finditer(pat, code):
                        for r in reps:
                            add(l[:m.start()] + r + l[m.end():], pat.strip() + '→' + r.strip())
                for m in re.finditer(HEX, code):
                    t = m.group().replace('_', '')
                    v = int(t, 0)
                    rng = random.Random(f'{rel}{i}{m.start()}')
                    for b in {rng.randrange(max(1, v.bit_length())), 0}:
                        add(l[:m.start()] + hex(v ^ 1 << b) + l[m.end():], 'bit')
                for m in re.finditer(DEC, code):
                    v = int(m.group().replace('_', ''))
                    for w in (v + 1, v - 1):
                        if w >= 0:
                            add(l[:m.start()] + str(w) + l[m.end():], 'const')
                t = code.strip()
                if t.endswith(';') and not re.match(r'(let|return|pub|const|static|type|mod|impl|\}|break|continue|\))', t) and t.count('(') == t.count(')') and t.count('{') == t.count('}') and '(' in t or re.search(r' [|&+^-]?= .*;$', t) and not t.startswith(('let', 'pub', 'const', 'static', 'type')):
                    add(re.match(r'\s*', l).group() + '{}', 'delete')
    return res


def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, 'timeout'


def setup(w):
    base = f'{ROOT}/w{w}'
    os.makedirs(base, exist_ok=True)
    repo, ver = base + '/repo', base + '/verif'
    if os.path.exists(repo):
        shutil.rmtree(repo)
    shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('target', '.git'))
    for x in ('harness', 'data'):
        if os.path.exists(f'{ver}/{x}'):
            shutil.rmtree(f'{ver}/{x}')
        if os.path.exists(f'/verif/{x}'):
            shutil.copytree(f'/verif/{x}', f'{ver}/{x}')
    shutil.copy('/verif/KNOWN_FINDINGS.txt', ver)
    t = open('/verif/check.sh').read().replace('cd /repo ', f'cd {repo} ')
    open(ver + '/check.sh', 'w').write(t)
    os.chmod(ver + '/check.sh', 0o755)
    c = open(ver + '/harness/Cargo.toml').read().replace('path = "/repo"', f'path = "{repo}"')
    open(ver + '/harness/Cargo.toml', 'w').write(c)
    return repo, ver


def work(w, q, log, lock, a):
    repo, ver = setup(w)
    env = dict(ENV, PBT_THREADS=str(a.threads), PBT_SCALE=str(a.scale))
    while True:
        try:
            rel, i, old, new, op = q.get_nowait()
        except queue.Empty:
            return
        path = f'{repo}/{rel}'
        src = open(path).read()
        ls = src.split('\n')
        assert ls[i] == old
        ls[i] = new
        open(path, 'w').write('\n'.join(ls))
        rec = dict(file=rel, line=i + 1, op=op, old=old.strip(), new=new.strip())
        rc, out = sh('timeout 300 cargo build -q --offline --locked', repo, 310)
        if rc:
            rec['state'] = 'no-build'
        else:
            rc, out = sh('timeout 90 cargo test -q --offline --locked --workspace', repo, 300)
            if rc:
                rec['state'] = 'tests'
            else:
                rec['state'] = 'MISSED'
                ids = next(v for k, v in RELEVANT if rel.startswith(k)).split()
                for pid in ids:
                    rc, out = sh(f'./check.sh {pid} quick', ver, 900, env)
                    if rc == 1 and f'VIOLATION property={pid}' in out:
                        rec['state'] = 'caught'
                        rec['by'] = pid
                        break
                    if rc not in (0, 1):
                        rec.setdefault('odd', []).append([pid, rc, out[-300:]])
        open(path, 'w').write(src)
        with lock:
            log.write(json.dumps(rec) + '\n')
            log.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--n', type=int, default=100)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--threads', type=int, default=2)
    ap.add_argument('--scale', type=float, default=0.15)
    ap.add_argument('--out', default=ROOT + '/log.jsonl')
    ap.add_argument('--file', action='append')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--tables', action='store_true', help='wrong entries in lookup tables only')
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    global REPO
    REPO = a.repo
    ms = tables(REPO) if a.tables else mutants(REPO, a.file)
    # every file gets a share
    rng = random.Random(a.seed)
    by = {}
    for m in ms:
        by.setdefault(m[0], []).append(m)
    for v in by.values():
        rng.shuffle(v)
        # one mutant per line of a table
        seen = set()
        for m in list(v):
            if not a.tables and len(re.findall(r'\d+,', m[2])) > 4:
                if m[1] in seen:
                    v.remove(m)
                seen.add(m[1])
    total = {k: len(v) for k, v in by.items()}
    weight = {k: len(v) ** 0.6 for k, v in by.items()}
    pick = []
    for k, v in by.items():
        pick += v[:max(1, round(a.n * weight[k] / sum(weight.values())))]
    rng.shuffle(pick)
    print(len(ms), 'mutants', total, 'picked', len(pick))
    if a.list:
        for m in pick:
            print(m[0], m[1] + 1, m[4], '|', m[3].strip())
        return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    q = queue.Queue()
    for m in pick:
        if (m[0], m[1] + 1, m[3].strip()) not in done:
            q.put(m)
    os.makedirs(ROOT, exist_ok=True)
    with open(a.out, 'a') as log:
        lock = threading.Lock()
        ts = [threading.Thread(target=work, args=(w, q, log, lock, a)) for w in range(a.workers)]
        [t.start() for t in ts]
        [t.join() for t in ts]


main()
