#!/usr/bin/env python3
"""Mutation sweep: how many small changes to figment that its own tests accept do the checks notice?

usage: mutate.py WORKDIR LANES [MAX] [FILE-REGEX] [SEED]

Works on copies under WORKDIR (never on /repo). A mutant that builds and passes figment's tests is
run against a 1/32 share of every check's quick budget, so a miss still has to be tried against all of it.
Results are appended to WORKDIR/results.jsonl; mutants already listed there are skipped.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, hashlib

WORK, LANES = sys.argv[1], int(sys.argv[2])
MAX = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
ONLY = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
SEED = int(sys.argv[5]) if len(sys.argv) > 5 else 1
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = ['C%02d' % i for i in range(1, 28)]
FIRST = {'error.rs': 'C04 C24 C05', 'figment.rs': 'C01 C27 C03 C06 C07 C25', 'coalesce.rs': 'C01',
         'metadata.rs': 'C03 C27', 'profile.rs': 'C21 C02', 'util.rs': 'C22 C23', 'data.rs': 'C14 C13 C15',
         'env.rs': 'C12 C11', 'serialized.rs': 'C08 C27', 'de.rs': 'C08 C09 C10', 'escape.rs': 'C11', 'magic.rs': 'C16 C17',
         'parse.rs': 'C11', 'ser.rs': 'C08 C26', 'tag.rs': 'C03 C26', 'value.rs': 'C26 C09 C06', 'jail.rs': 'C18 C19',
         'provider.rs': 'C25 C27'}

SWAPS = [(r'==', '!='), (r'!=', '=='), (r'(?<= )<(?= )', '<='), (r'(?<= )>(?= )', '>='), (r'<=', '<'), (r'>=(?!=)', '>'),
         (r'&&', '||'), (r'(?<=[\w)\]] )\|\|(?= [\w!(])', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'(?<![\w.#&!])!(?=[\w(])', ''), (r'\bis_some\b', 'is_none'), (r'\bis_none\b', 'is_some'),
         (r'\bis_ok\b', 'is_err'), (r'\bfirst\b', 'last'), (r'\blast\b', 'first'), (r'\.next\(\)', '.next_back()'),
         (r'\.next\(\)', '.last()'), (r'\bstarts_with\b', 'ends_with'), (r'\bends_with\b', 'starts_with'),
         (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r'\+=', '-='),
         (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'), (r'\bMerge\b', 'Join'), (r'\bJoin\b', 'Merge'),
         (r'\bAdjoin\b', 'Join'), (r'\bAdmerge\b', 'Merge'), (r'\bAdjoin\b', 'Admerge'), (r'\bAdmerge\b', 'Adjoin'),
         (r'\bDefault\b', 'Global'), (r'\bGlobal\b', 'Default'), (r'\b[iu](8|16|32|64|128)\b', None), (r'\bf32\b', 'f64'), (r'\bf64\b', 'f32'),
         (r'\busize\b', 'u32'), (r'\bisize\b', 'i32'), (r'\bor_else\b', 'and_then'), (r'\bunwrap_or_default\(\)', 'unwrap()'),
         (r'\bsplit\b', 'rsplit'), (r'\bsplitn\b', 'rsplitn'), (r'\bfind\b', 'rfind'), (r'\bto_ascii_lowercase\b', 'to_ascii_uppercase'),
         (r'\bto_lowercase\b', 'to_ascii_lowercase'), (r'\beq_ignore_ascii_case\b', 'eq'), (r'\bSome\(([^()]*)\)', 'None'),
         (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bmost\b', 'least'), (r'\binsert\b', 'remove'), (r'\bextend\b', 'clone_from'),
         (r'\bpush\b', 'insert'), (r'\bentry\b', 'get'), (r'\bcanonicalize\b', 'to_path_buf'), (r'\bis_file\b', 'exists'), (r'\bis_dir\b', 'is_file'),
         (r'\bis_file\b', 'is_dir'), (r'\bpop\b', 'clear'), (r'\bis_absolute\b', 'is_relative'), (r'\bis_relative\b', 'is_absolute')]

def quote_mask(line):
    m, q, i = [False] * len(line), False, 0
    while i < len(line):
        if line[i] == '"' and not (i and line[i-1] == "'" and line[i+1:i+2] == "'"): q = not q; m[i] = True
        elif q:
            m[i] = True
            if line[i] == '\\' and i + 1 < len(line): m[i+1] = True; i += 1
        i += 1
    return m

def balanced(line, i):
    d = 0
    for j in range(i, len(line)):
        if line[j] in '([{': d += 1
        elif line[j] in ')]}':
            d -= 1
            if d == 0: return j + 1
    return None

def mutants(src):
    lines = src.split('\n')
    out = []
    for n, line in enumerate(lines):
        s = line.strip()
        if s.startswith('#[cfg(test)]'): break
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use '): continue
        code = line
        if ' // ' in code and not quote_mask(code)[code.index(' // ')]: code = code[:code.index(' // ')]
        mask = quote_mask(code)
        def add(new, what):
            if new != line and (new.strip() or what == 'delete'): out.append((n, line, new, what))
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                if mask[m.start()]: continue
                r = rep
                if r is None:
                    w = m.group(1); big = {'8': '16', '16': '8', '32': '16', '64': '32', '128': '64'}[w]
                    add(code[:m.start()] + m.group(0)[0] + big + code[m.end():], 'swap')
                    r = ('i' if m.group(0)[0] == 'u' else 'u') + w
                add(code[:m.start()] + r + code[m.end():], 'swap')
        for m in re.finditer(r'(?<![\w.\'])(\d+)(?![\w.])', code):
            if mask[m.start()]: continue
            for d in (1, -1):
                if int(m.group(1)) + d >= 0: add(code[:m.start()] + str(int(m.group(1)) + d) + code[m.end():], 'literal')
        for m in re.finditer(r"'(\\?.)'", code):
            if not mask[m.start()]: add(code[:m.start()] + ("'x'" if m.group(1) != 'x' else "'y'") + code[m.end():], 'char')
        for m in re.finditer(r'\.(\w+)(::<[^()]*>)?\(', code):
            if mask[m.start()]: continue
            e = balanced(code, m.end() - 1)
            if e:
                add(code[:m.start()] + code[e:], 'uncall')
        for m in re.finditer(r'\b(\w+)\(', code):
            e = balanced(code, m.end() - 1)
            if not e or mask[m.start()]: continue
            args, d, cur = [], 0, ''
            for c in code[m.end():e-1]:
                if c in '([{<': d += 1
                if c in ')]}>': d -= 1
                if c == ',' and d == 0: args.append(cur.strip()); cur = ''
                else: cur += c
            args.append(cur.strip())
            if len(args) == 2 and all(args) and ':' not in args[0]: add(code[:m.end()] + args[1] + ', ' + args[0] + code[e-1:], 'swapargs')
        m = re.match(r'(\s*)(\} else )?if (?!let\b)(.*) \{$', code)
        if m:
            for c in ('true', 'false'): add(f'{m.group(1)}{m.group(2) or ""}if {c} {{', 'cond')
        m = re.match(r'(.*) if (?!let\b)(.*) =>(.*)$', code)
        if m and '=>' not in m.group(1):
            for c in ('true', 'false'): add(f'{m.group(1)} if {c} =>{m.group(3)}', 'guard')
        if s.endswith(';') and not re.match(r'(let|use|pub|type|mod|const|static|return|break|continue|impl|struct|\}|\)|\.)', s): add('', 'delete')
        if '=>' in s and s.endswith(',') and s.count('{') == s.count('}') and s.count('(') == s.count(')'): add('', 'delete')
        m = re.match(r'(\s*)((?:self|[a-z_]\w*)\.[a-z_]\w*(?:\.\w+)*) = (.*);$', code)
        # function bodies
        m = re.match(r'(\s*)(?:pub(?:\([^)]*\))? )?fn \w+.*\{$', code)
        if m:
            ind = m.group(1)
            end = next((k for k in range(n + 1, len(lines)) if lines[k] == ind + '}'), None)
            if end:
                ret = code.split('->')[1].strip() if '->' in code else ''
                bodies = ['Default::default()', 'Ok(Default::default())'] if ret else ['']
                if ret.startswith('bool'): bodies = ['true', 'false']
                if ret.startswith('Option'): bodies = ['None']
                if 'Formatter' in code: bodies = []
                for b in bodies: out.append((n, '\n'.join(lines[n:end+1]), code + ' ' + b + ' }', 'body'))
    return out

def collect():
    muts = []
    for root, _, files in os.walk('/repo/src'):
        for f in sorted(files):
            p = os.path.join(root, f); rel = os.path.relpath(p, '/repo/src')
            if not ONLY.search(rel): continue
            for m in mutants(open(p).read()):
                h = hashlib.sha1(repr((rel,) + m[1:] + (m[0],)).encode()).hexdigest()[:12]
                muts.append((h, rel) + m)
    random.Random(SEED).shuffle(muts)
    return muts

def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0'); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); out, _ = p.communicate(); return 124, out
    return p.returncode, out

lock = threading.Lock()

class Lane:
    def __init__(self, k):
        self.d = f'{WORK}/lane{k}'; self.repo = self.d + '/repo'; self.v = self.d + '/v'
        os.makedirs(self.d, exist_ok=True)
        if not os.path.exists(self.repo): subprocess.run(['cp', '-a', '/repo', self.repo], check=True)
        subprocess.run(['rsync', '-a', '--delete', '/repo/src/', self.repo + '/src/'], check=True)
        os.makedirs(self.v, exist_ok=True)
        subprocess.run(['rsync', '-a', '--delete', VERIF + '/harness/', self.v + '/harness/'], check=True)
        for f in ('known_findings.txt', 'findings', 'regressions'): subprocess.run(['cp', '-a', f'{VERIF}/{f}', self.v], check=False)
        t = self.v + '/harness/Cargo.toml'; s = open(t).read().replace('path = "/repo"', f'path = "{self.repo}"'); open(t, 'w').write(s)
        if not os.path.exists(self.v + '/target') and os.path.exists(VERIF + '/target'): subprocess.run(['cp', '-a', VERIF + '/target', self.v + '/target'], check=True)
        self.build()

    def build(self):
        return sh(['cargo', 'build', '--release', '--offline'], self.v + '/harness', 600, {'CARGO_TARGET_DIR': self.v + '/target', 'RUSTUP_TOOLCHAIN': 'stable'})

    def share(self, c, shards, seed=1):
        w = f'{self.d}/w-{c}'; o = w + '.json'; shutil.rmtree(w, ignore_errors=True)
        if os.path.exists(o): os.remove(o)
        os.makedirs(w, exist_ok=True); os.chmod(w, 0o755)
        rc, out = sh([self.v + '/target/release/figcheck', 'worker', c, 'quick', str(seed), '0', str(shards), w, o], self.v, 400, {'VERIF_ROOT': self.v, 'VERIF_SEED': '1'})
        shutil.rmtree(w, ignore_errors=True)
        if rc: return f'worker rc={rc} ' + out[-200:]
        for r in json.load(open(o)):
            if r['violation']: return r['violation']['message'][:300]
        return None

    def sweep(self, order, shards, jobs):
        it = iter(order); res = []; stop = threading.Event()
        def work():
            while not stop.is_set():
                with lock: c = next(it, None)
                if c is None: return
                r = self.share(c, shards)
                if r: res.append((c, r)); stop.set()
        ts = [threading.Thread(target=work) for _ in range(jobs)]
        [t.start() for t in ts]; [t.join() for t in ts]
        return res[0] if res else None

    def run(self, m):
        h, rel, n, old, new, what = m
        p = f'{self.repo}/src/{rel}'; src = open(p).read(); lines = src.split('\n')
        k = old.count('\n') + 1
        assert '\n'.join(lines[n:n+k]) == old
        open(p, 'w').write('\n'.join(lines[:n] + [new] + lines[n+k:]))
        rec = {'id': h, 'file': rel, 'line': n + 1, 'old': old.strip()[:200], 'new': new.strip()[:200], 'what': what}
        try:
            rc, out = sh(['cargo', 'check', '--all-features', '--offline'], self.repo, 200)
            if rc: rec['result'] = 'no-compile'; return rec
            if rel != 'jail.rs':
                rc, out = sh(['cargo', 'test', '--all-features', '--offline', '--workspace'], self.repo, 200)
                if rc: rec['result'] = 'tests'; return rec
            rc, out = self.build()
            if rc: rec['result'] = 'no-harness'; rec['out'] = out[-500:]; return rec
            first = FIRST.get(os.path.basename(rel), '').split()
            order = first + [c for c in CHECKS if c not in first]
            if rel == 'jail.rs': order = ['C18', 'C19']
            for stage, shards in (('share', 32),):
                r = self.sweep(order, shards, max(2, 8 // LANES))
                if r: rec.update(result='caught', stage=stage, check=r[0], message=r[1]); return rec
            rec['result'] = 'MISSED'
            return rec
        finally:
            open(p, 'w').write(src)

def main():
    os.makedirs(WORK, exist_ok=True)
    res = f'{WORK}/results.jsonl'
    done = {json.loads(l)['id'] for l in open(res)} if os.path.exists(res) else set()
    muts = [m for m in collect() if m[0] not in done][:MAX]
    print(len(muts), 'mutants', flush=True)
    q = queue.Queue(); [q.put(m) for m in muts]
    def lane(k):
        L = Lane(k)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            try: r = L.run(m)
            except Exception as e: r = {'id': m[0], 'file': m[1], 'result': 'error', 'error': repr(e)}
            with lock:
                with open(res, 'a') as f: f.write(json.dumps(r) + '\n')
                if r['result'] in ('MISSED', 'error', 'no-harness'): print(json.dumps(r), flush=True)
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(LANES)]
    [t.start() for t in ts]; [t.join() for t in ts]

if __name__ == '__main__': main()
