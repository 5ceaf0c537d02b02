"""mutate.py: mutation analysis of the checks.

mutate.py gen FILE.py...            list the mutants of the files (AST based, one change each) into /tmp/mut/mutants.jsonl
mutate.py gen2 FILE.py...           the same with the changes people make (names, order, arguments, branches)
mutate.py tests                     run the repository's tests on each (8 in parallel); survivors to /tmp/mut/survivors.jsonl
mutate.py checks [N] [--only FILE]  run the checks anchored at the file on the survivors until one reports a violation
Everything works in clones under /tmp/mut; nothing touches /repo.
"""
import ast, json, os, random, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import queue
M = os.environ.get('MUT_DIR', '/tmp/mut')
SRC = os.environ.get('MUT_SRC', '/repo/pyembroidery/')
VER = os.environ.get('MUT_VERIF', '/verif')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')


class Src:
    def __init__(self, name):
        self.name = name
        self.raw = open(SRC + name, 'rb').read()
        self.text = self.raw.decode('utf8')
        self.lines = self.text.splitlines(True)
        self.off = [0]
        for l in self.raw.splitlines(True):
            self.off.append(self.off[-1] + len(l))

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode('utf8')


CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//'], ast.FloorDiv: ['*'], ast.Div: ['*'], ast.Mod: ['*'], ast.LShift: ['>>'],
       ast.RShift: ['<<'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.BitXor: ['&']}


def gen(name):
    s = Src(name)
    tree = ast.parse(s.text)
    out = []

    def rep(n, new, kind):
        a, b = s.span(n)
        out.append(dict(file=name, line=n.lineno, a=a, b=b, old=s.raw[a:b].decode('utf8'), new=new, kind=kind))

    def between(l, r, new, kind):
        a, b = s.span(l)[1], s.span(r)[0]
        old = s.raw[a:b].decode('utf8')
        if '(' in old or ')' in old or '\n' in old:
            return
        out.append(dict(file=name, line=l.lineno, a=a, b=b, old=old, new=' ' + new + ' ', kind=kind))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    infn = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                infn.add(n)
    for n in ast.walk(tree):
        if n not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                between(n.left, n.comparators[0], o, 'cmp')
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                between(n.left, n.right, o, 'bin')
        elif isinstance(n, ast.BoolOp):
            between(n.values[0], n.values[1], 'or' if isinstance(n.op, ast.And) else 'and', 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(' + s.seg(n.operand) + ')', 'not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, '(' + s.seg(n.operand) + ')', 'neg')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'const')
            elif type(n.value) is int:
                rep(n, str(n.value + 1), 'const')
                rep(n, str(n.value - 1) if n.value > 0 else '(-1)', 'const')
            elif type(n.value) is float:
                rep(n, repr(n.value + 1), 'const')
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                rep(n.test, 'True', 'cond')
            rep(n.test, 'False', 'cond')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and n not in doc):
            rep(n, 'pass', 'del')
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, 'pass', 'del')
            rep(n, 'continue' if isinstance(n, ast.Break) else 'break', 'brk')
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return', 'ret')
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            pass
    ok = []
    seen = set()
    for m in out:
        new = s.raw[:m['a']] + m['new'].encode() + s.raw[m['b']:]
        if new in seen or new == s.raw:
            continue
        seen.add(new)
        try:
            ast.parse(new.decode('utf8'))
        except SyntaxError:
            continue
        ok.append(m)
    return ok


PAIRS = {}
for a, b in (("x", "y"), ("dx", "dy"), ("xx", "yy"), ("i", "j"), ("width", "height"), ("min", "max"), ("sx", "sy"), ("x0", "y0"), ("x0", "x1"), ("y0", "y1"), ("min_x", "min_y"), ("max_x", "max_y"),
             ("left", "right"), ("top", "bottom"), ("last_x", "last_y"), ("px", "py"), ("floor", "ceil"), ("STITCH", "JUMP"), ("COLOR_CHANGE", "STOP"), ("COLOR_BREAK", "COLOR_CHANGE"),
             ("STITCH_BREAK", "SEQUENCE_BREAK"), ("SEQUIN_EJECT", "SEQUIN_MODE"), ("SEW_TO", "NEEDLE_AT"), ("SLOW", "FAST"), ("TRIM", "STOP"), ("thread", "needle")):
    PAIRS.setdefault(a, []).append(b)
    PAIRS.setdefault(b, []).append(a)


def independent(p, q):
    def parts(k):
        if any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) and not isinstance(getattr(n, "ctx", None), ast.Load) or isinstance(n, ast.Call) for n in ast.walk(k)):
            return None
        return ({n.id for n in ast.walk(k) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}, {n.id for n in ast.walk(k) if isinstance(n, ast.Name)})
    a, b = parts(p), parts(q)
    return a is not None and b is not None and not (a[0] & b[1]) and not (b[0] & a[1])


def gen2(name):
    """changes of the kind people make: the wrong one of two names, statements or arguments the wrong way round, a forgotten branch or term"""
    s = Src(name)
    tree = ast.parse(s.text)
    out = []

    def edits(n, spans, kind):
        """spans = [(node, text)...] replaced together; recorded as one edit over the whole range"""
        spans = sorted((s.span(k) + (t,) for k, t in spans))
        a, b = spans[0][0], spans[-1][1]
        raw, pos = b'', a
        for x, y, t in spans:
            raw += s.raw[pos:x] + t.encode()
            pos = y
        out.append(dict(file=name, line=n.lineno, a=a, b=b, old=s.raw[a:b].decode('utf8'), new=raw.decode('utf8'), kind=kind))

    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for o in PAIRS.get(n.id, []):
                    if o in names or o.isupper() or o in ("min", "max"):
                        edits(n, [(n, o)], 'var')
            if isinstance(n, ast.Call) and len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    p, q = n.args[k:k + 2]
                    if s.seg(p) != s.seg(q):
                        edits(n, [(p, s.seg(q)), (q, s.seg(p))], 'args')
            if isinstance(n, ast.BoolOp):
                for k in range(len(n.values)):
                    neutral = 'True' if isinstance(n.op, ast.And) else 'False'
                    edits(n, [(n.values[k], neutral)], 'term')
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.BitOr)):
                edits(n, [(n, s.seg(n.left))], 'operand')
            if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ('int', 'round', 'abs', 'str', 'float', 'list', 'bytes', 'floor', 'ceil', 'signed8', 'signed16'):
                edits(n, [(n, '(' + s.seg(n.args[0]) + ')')], 'unwrap')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                edits(n, [(n, s.seg(n.func.value))], 'unwrap')
            if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                edits(n, [(k, 'pass') for k in n.orelse], 'else')
            for fld in ('body', 'orelse'):
                b = getattr(n, fld, None)
                if isinstance(b, list):
                    for p, q in zip(b, b[1:]):
                        if all(isinstance(k, (ast.Assign, ast.AugAssign, ast.Expr)) for k in (p, q)) and s.seg(p) != s.seg(q) and not independent(p, q):
                            edits(p, [(p, s.seg(q)), (q, s.seg(p))], 'order')
                    for k in b:
                        if isinstance(k, ast.If) and not k.orelse and b.index(k) + 1 < len(b) and isinstance(b[b.index(k) + 1], (ast.Assign, ast.AugAssign, ast.Expr)):
                            q = b[b.index(k) + 1]
                            ind = ' ' * k.body[-1].col_offset
                            last = k.body[-1]
                            edits(k, [(last, s.seg(last) + '\n' + ind + s.seg(q)), (q, 'pass')], 'indent')
    ok, seen = [], set()
    for m in out:
        new = s.raw[:m['a']] + m['new'].encode() + s.raw[m['b']:]
        if new in seen or new == s.raw:
            continue
        seen.add(new)
        try:
            ast.parse(new.decode('utf8'))
        except SyntaxError:
            continue
        ok.append(m)
    return ok


def ws(i):
    d = M + '/ws%d' % i
    if not os.path.isdir(d):
        subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    else:
        subprocess.call(['git', '-C', d, 'fetch', '-q'])
        subprocess.check_call(['git', '-C', d, 'reset', '-q', '--hard', 'origin/HEAD'])
    os.makedirs(d + '.cwd', exist_ok=True)
    return d


def apply(d, m):
    p = d + '/pyembroidery/' + m['file']
    raw = open(SRC + m['file'], 'rb').read()
    assert raw[m['a']:m['b']].decode('utf8') == m['old']
    open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
    return lambda: open(p, 'wb').write(raw)


BASE = None


def tests(d):
    out = d + '.cwd/out.json'
    jx = d + '.cwd/junit.xml'
    for f in (out, jx):
        if os.path.exists(f):
            os.remove(f)
    try:
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--rootdir=' + d, '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '-p', 'vp_seed',
                        '--timeout=20', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + jx, d + '/test']
                       + ['--deselect=' + x for x in DESEL],
                       cwd=d + '.cwd', env=dict(ENV, PYTHONPATH=d + ':/opt/vp/lib'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        subprocess.run(['/opt/venv/bin/python', '/opt/vp/results.py', out, 'junit:' + jx], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        got = set(json.load(open(out))['passed'])
    except Exception:
        return False
    return not (BASE - got)


DESEL = []


def main():
    global BASE
    b = json.load(open('/opt/vp/BASELINE.json'))
    BASE = set(b.get('passed') or b['stable'])
    cmd = sys.argv[1]
    if cmd in ('gen', 'gen2'):
        per = int(os.environ.get('PER', '0'))
        rnd = random.Random(int(os.environ.get('SEED', '1')))
        n = 0
        with open(M + '/mutants.jsonl', 'w') as f:
            for name in sys.argv[2:]:
                ms = (gen if cmd == 'gen' else gen2)(name)
                if per and len(ms) > per:
                    ms = sorted(rnd.sample(ms, per), key=lambda m: m['a'])
                for m in ms:
                    f.write(json.dumps(m) + '\n')
                    n += 1
        print(n, 'mutants')
    elif cmd == 'tests':
        ms = [json.loads(l) for l in open(M + '/mutants.jsonl')]
        q = queue.Queue()
        N = int(os.environ.get('PAR', '8'))
        for i in range(N):
            q.put(ws(i))

        def one(m):
            d = q.get()
            undo = apply(d, m)
            try:
                return m, tests(d)
            finally:
                undo()
                q.put(d)
        k = 0
        with open(M + '/survivors.jsonl', 'w') as f, ThreadPoolExecutor(N) as ex:
            for m, ok in ex.map(one, ms):
                if ok:
                    k += 1
                    f.write(json.dumps(m) + '\n')
                    f.flush()
        print(len(ms), 'mutants', k, 'survive the tests')
    elif cmd == 'checks':
        ms = [json.loads(l) for l in open(M + '/survivors.jsonl')]
        MAP = json.load(open(os.path.dirname(os.path.abspath(__file__)) + '/mutmap.json'))
        donef = M + '/results.jsonl'
        done = set()
        if os.path.exists(donef):
            done = {(m['file'], m['a'], m['b'], m['new'], m['old']) for m in map(json.loads, open(donef))}
        ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new'], m['old']) not in done]
        N = int(os.environ.get('PAR', '4'))
        q = queue.Queue()
        for i in range(N):
            q.put(ws(20 + i))

        def one(m):
            d = q.get()
            undo = apply(d, m)
            res = []
            try:
                for c in MAP.get(m['file'], MAP['*']):
                    try:
                        r = subprocess.run(['python3', 'run.py', c], cwd=VER, env=dict(ENV, MC_REPO=d, MC_PROCS=str(max(2, 8 // N)), VERIF_SEED='1', VERIF_TIER='quick'),
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                        rc = r.returncode
                        v = b'VIOLATION property=' + c.encode() in r.stdout
                    except subprocess.TimeoutExpired:
                        rc, v = 'timeout', False
                    res.append((c, rc, v))
                    if rc == 1 and v:
                        break
                return m, res
            finally:
                undo()
                q.put(d)
        with open(donef, 'a') as f, ThreadPoolExecutor(N) as ex:
            for m, res in ex.map(one, ms):
                m['res'] = res
                m['caught'] = res[-1][0] if res and res[-1][1] == 1 and res[-1][2] else None
                f.write(json.dumps(m) + '\n')
                f.flush()
                if not m['caught']:
                    print('MISSED %s:%d %s: %r -> %r %s' % (m['file'], m['line'], m['kind'], m['old'][:90], m['new'][:40], res), flush=True)
                elif any(r[1] not in (0, 1) for r in res):
                    print('ODD %s:%d %r -> %r %s' % (m['file'], m['line'], m['old'][:60], m['new'][:40], res), flush=True)


main()
