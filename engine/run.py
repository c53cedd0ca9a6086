#!/usr/bin/env python3
"""Contract verification driver.

  run.py PROPERTY [--tier quick|thorough] [--unit NAME] [--record] [-v]

Every unit (units/*.c) includes the real source text of /repo, states the contract of one function
(or a small group) as pre/postconditions, and gives loop invariants that are injected into the
preprocessed text at the loops of the real code.  goto-instrument applies the loop contracts, cbmc
discharges every obligation.  See DESIGN.md.
"""
import sys, os, re, json, time, subprocess, shutil, tempfile, tomllib, itertools, glob, hashlib, signal, resource
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import cast
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
UNITS = os.path.join(VERIF, 'units')
BASE = os.path.join(VERIF, 'baseline.json')
KNOWN = os.path.join(VERIF, 'known-findings.json')
EVID = os.path.join(VERIF, 'evidence')
VERBOSE = False
FUZZONLY = []
NOSEARCH = []
T0 = time.time()
LIMIT = float(os.environ.get('VERIF_LIMIT', '840'))   # a check gets 900 s
def left(): return LIMIT - (time.time() - T0)

def log(*a):
    if VERBOSE: print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def lim():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def sh(cmd, timeout=60, cwd=None, nolim=False, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, text=True, errors='replace',
                         stdin=subprocess.DEVNULL, start_new_session=True, preexec_fn=None if nolim else lim, env=env)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return 'timeout', o, e

class Unit:
    def __init__(s, path):
        s.path = path; s.name = os.path.splitext(os.path.basename(path))[0]
        t = open(path).read()
        m = re.search(r'/\*@unit\n(.*?)\*/', t, re.S)
        d = tomllib.loads(m.group(1)); s.d = d
        g = d.get
        s.props = [d['property']] if isinstance(d['property'], str) else d['property']
        s.functions = g('functions', []); s.loops = g('loop', [])
        lets = g('let', {}); macros = g('macro', {})
        def call(m):
            if m.group(1) not in macros: return m.group(0)
            args = [x.strip() for x in m.group(2).split(',')]
            return re.sub(r'#(\d)', lambda k: '(' + args[int(k.group(1)) - 1] + ')', macros[m.group(1)])
        def ex(e):
            for _ in range(8):
                n = re.sub(r'\$(\w+)\(((?:[^()]|\([^()]*\))*)\)', call, e)
                n = re.sub(r'\$(\w+)', lambda m: '(' + lets[m.group(1)] + ')' if m.group(1) in lets else m.group(0), n)
                if n == e: break
                e = n
            return e
        for l in s.loops:
            for k in ('inv', 'assigns'): l[k] = [ex(x) for x in l.get(k, [])]
            for k in ('decreases', 'ghost', 'ghost_end'): l[k] = ex(l.get(k, ''))
        s.cases = g('cases', ['']); s.thorough_cases = g('thorough_cases', [])
        s.unwind = g('unwind', 1); s.unwindset = g('unwindset', [])
        s.flags = g('flags', []); s.ignore = g('ignore', []); s.solver = g('solver', 'cadical'); s.timeout = g('timeout', 200)
        s.defs = g('defs', [])
        s.stubs = g('stubs', []); s.assume = g('assume', []); s.lemma = g('lemma', '')
        s.bound = g('bound', 4); s.bunwind = g('bunwind', 12); s.bcases = g('bcases', None)
        s.btimeout = g('btimeout', 150)
        s.nosearch = g('nosearch', False); s.nobounded = g('nobounded', False); s.nofuzz = g('nofuzz', False)
        s.fuzzlen = g('fuzzlen', 256); s.fuzzsecs = g('fuzzsecs', 40)
        s.replace = g('replace', []); s.redirect = dict(x.split(':') for x in g('redirect', []))
        s.replaced = set(x.split(':')[0] for x in s.replace) | set(s.redirect); s.native_src = g('native_src', [])
        s.links = g('links', [])
        s.bounded_only = g('bounded_only', '')   # reason; unit is a labelled bounded stand-in
        s.split = g('split', False); s.split_more = g('split_more', []); s.split_rest = g('split_rest', 1)
        s.tier = g('tier', 'quick')
        s.objbits = g('objbits', 8)

CPP = ['gcc', '-E', '-std=gnu99', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-D__CPROVER=1', '-fno-builtin',
       '-I', HERE, '-I', UNITS, '-I', REPO, '-I', os.path.join(REPO, 'include'), '-w']

def harness_fn(name):
    return name.startswith(('vc_', 'nd_', 'h_', 'stub_', 'spec_', 'harness', 'g_'))

_undef = {}
def defines_map():
    """function name -> repo source defining it"""
    if _undef: return _undef
    for f in glob.glob(os.path.join(REPO, 'src/*/*.c')):
        t = open(f, errors='replace').read()
        for m in re.finditer(r'^[A-Za-z_][A-Za-z0-9_ \t\*]*?[ \t\*]([A-Za-z_]\w*)[ \t]*\([^;{}]*\)\s*\{', t, re.M):
            _undef.setdefault(m.group(1), f)
        for m in re.finditer(r'^const\s[\w \t]*?(\w+)\s*(\[[^\]]*\])?\s*=', t, re.M):
            _undef.setdefault(m.group(1), f)
    return _undef

def ids(expr): return set(re.findall(r'(?<![\w.>])([A-Za-z_]\w*)', re.sub(r'->\s*\w+|\.\s*[A-Za-z_]\w*', '', expr)))

def flat_loops(fns, name, seen=None, skip=()):
    """loops of a function with those of same-TU helpers it calls, in source order of appearance"""
    seen = seen or set()
    if name not in fns or name in seen: return []
    seen = seen | {name}
    f = fns[name]
    ev = [(l.begin, 'L', l) for l in f.loops]
    def w(n):
        if n.get('kind') == 'CallExpr':
            c = cast.strip(cast.kids(n)[0]) if cast.kids(n) else {}
            d = c.get('referencedDecl', {})
            if d.get('kind') == 'FunctionDecl' and d.get('name') in fns and not harness_fn(d['name']) and d['name'] not in skip:
                o = cast.off(n['range']['begin'])
                if o is not None: ev.append((o, 'C', d['name']))
        for c in cast.kids(n): w(c)
    w(f.node)
    out = []
    done = set()
    for o, k, x in sorted(ev, key=lambda e: e[0]):
        if k == 'L': out.append(x)
        elif x not in done:
            done.add(x); out += flat_loops(fns, x, seen, skip)
    return out

def plan_attach(u, fns, base):
    """-> list of attachments: each [(Loop, spec, rename)], tried in order; None entries impossible.
    Also returns whether the annotated loops look as recorded."""
    byfn = {}
    for l in u.loops: byfn.setdefault(l['fn'], []).append(l)
    slots = []; same = True; notes = []
    for fn, specs in byfn.items():
        b = base.get(fn, {})
        if fn not in fns: return [], False, ['function %s not found in the translation unit' % fn]
        flat = flat_loops(fns, fn, None, u.replaced)
        own = fns[fn].loops
        if b and len(flat) != b['nloops']:
            notes.append('%s: %d loops, contract written for %d' % (fn, len(flat), b['nloops']))
            return [], False, notes
        for sp in specs:
            k = sp.get('nth', 0)
            if k >= len(flat):
                return [], False, notes + ['%s: loop %d not found' % (fn, k)]
            lp = flat[k]
            if b and (lp.header != b['headers'][k] or lp.fn.name != b['owners'][k]): same = False
            bl = dict((n, t) for n, t in b.get('locals', {}).get(b['owners'][k], [])) if b else {}
            used = set()
            for e in sp.get('inv', []) + sp.get('assigns', []) + [sp.get('decreases', ''), sp.get('ghost', ''), sp.get('ghost_end', '')]: used |= ids(e)
            loc = dict((n, t) for n, t, _, _ in lp.fn.locals)
            missing = [n for n in used if n in bl and n not in loc]
            slots.append((lp, sp, missing, bl, loc, used))
    # renames
    choices = []
    for lp, sp, missing, bl, loc, used in slots:
        if not missing: choices.append([{}]); continue
        same = False
        cand = []
        free = [n for n in loc if n not in used]
        def norm(t): return re.sub(r'\bconst\b|\s+', '', t)
        for m in missing:
            c = [n for n in free if norm(loc[n]) == norm(bl[m])] or free
            # prefer same position in the declaration list
            cand.append(c[:6])
        opts = []
        for combo in itertools.product(*cand):
            if len(set(combo)) == len(combo): opts.append(dict(zip(missing, combo)))
        if not opts: return [], False, notes + ['%s: locals %s gone' % (lp.fn.name, missing)]
        choices.append(opts[:8])
    plans = []
    for combo in itertools.product(*choices):
        plans.append([(s[0], s[1], r) for s, r in zip(slots, combo)])
        if len(plans) >= 8: break
    return plans, same, notes

def rename(e, m):
    if not m: return e
    return re.sub(r'(?<![\w.>])([A-Za-z_]\w*)', lambda x: m.get(x.group(1), x.group(1)), e)

def record_of(u, fns):
    r = {}
    for fn in sorted(set(l['fn'] for l in u.loops)):
        fl = flat_loops(fns, fn, None, u.replaced)
        own = sorted(set(l.fn.name for l in fl))
        r[fn] = {'nloops': len(fl), 'headers': [l.header for l in fl], 'owners': [l.fn.name for l in fl],
                 'locals': {o: [(n, t) for n, t, _, _ in fns[o].locals] for o in own}}
    return r

def const_trips(h, default):
    """iterations of a counting loop with constant bounds (checked by the unwinding assertion anyway)"""
    m = re.match(r'^for\((?:int|unsigned|size_t)?(\w+)=(\d+);\1(<=?)(\d+);(?:\+\+\1|\1\+\+)\)$', h)
    if m: return max(1, int(m.group(4)) - int(m.group(2)) + (m.group(3) == '<='))
    m = re.match(r'^for\((?:int)?(\w+)=(\d+);\1>=0;(?:--\1|\1--)\)$', h)
    if m: return int(m.group(2)) + 1
    return default

class Compile(Exception): pass

def preprocess(u, case, mode, wd, extra=()):
    i = os.path.join(wd, 'tu.i')
    c = CPP + ['-D' + mode] + list(extra) + case.split() + u.defs + [u.path, '-o', i]
    r, o, e = sh(c, 60)
    if r != 0: raise Compile('cpp: ' + e[-1500:])
    return i

def link_undefined(gb, wd, mode, u):
    """add the repo sources of functions the code now calls and the unit has no contract for"""
    linked = set(); notes = []
    for rnd in range(6):
        r, o, e = sh(['goto-instrument', '--list-undefined-functions', gb], 60)
        und = [x.strip() for x in o.splitlines() if re.match(r'^[A-Za-z_]\w*$', x.strip())]
        r2, o2, e2 = 0, '', ''
        need = [defines_map()[f] for f in und if f in defines_map()]
        need = [f for f in dict.fromkeys(need) if f not in linked]
        if not need: return notes
        objs = []
        for f in need:
            linked.add(f); notes.append('linked body of ' + os.path.relpath(f, REPO))
            ob = os.path.join(wd, 'l%d_%s.gb' % (len(linked), os.path.basename(f)))
            r, o, e = sh(['goto-cc', '-std=gnu99', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-I', os.path.join(REPO, 'include'), '-w', '-c', f, '-o', ob], 60)
            if r != 0: raise Compile('goto-cc %s: %s' % (f, e[-800:]))
            objs.append(ob)
        r, o, e = sh(['goto-cc', '--function', 'harness', gb] + objs + ['-o', gb + '.n'], 60)
        if r != 0: raise Compile('link: ' + (o + e)[-800:])
        os.replace(gb + '.n', gb)
    return notes

def cbmc_json(args, timeout):
    t = time.time()
    r, o, e = sh(['cbmc', '--json-ui'] + args, timeout)
    dt = time.time() - t
    if r == 'timeout': return 'timeout', None, dt, ''
    try: j = json.loads(o)
    except Exception: return 'error', None, dt, (o[-600:] + e[-600:])
    res = None; msgs = []
    for m in j:
        if 'result' in m: res = m['result']
        if m.get('messageType') == 'ERROR': msgs.append(m.get('messageText', ''))
    if res is None: return 'error', None, dt, ' '.join(msgs)[-1200:] + e[-600:]
    return 'ok', res, dt, ' '.join(msgs)

STD = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check', '--unwinding-assertions', '--slice-formula']

def loc(p):
    s = p.get('sourceLocation', {})
    f = s.get('file', ''); f = f.replace(REPO + '/', '')
    return '%s:%s %s' % (f, s.get('line', '?'), s.get('function', ''))

def ob_name(p): return '%s (%s) at %s' % (p['property'], p.get('description', ''), loc(p))

def build_proof(u, case, wd, base, plan_i, unwind):
    """-> dict with gb and info"""
    i = preprocess(u, case, 'VC_PROOF', wd)
    info = {'notes': []}
    edits = []
    if u.loops or u.redirect:
        fns, text = cast.functions(i)
        if u.redirect: edits += cast.redirect_edits([f for f in fns.values() if not harness_fn(f.name)], u.redirect)
        if not u.loops: open(i, 'w', encoding='latin-1').write(cast.inject(text, edits))
    if u.loops:
        plans, same, notes = plan_attach(u, fns, base.get(u.name, {}))
        info['record'] = record_of(u, fns) if all(l['fn'] in fns for l in u.loops) else {}
        info['same'] = same; info['nplans'] = len(plans); info['notes'] += notes
        if plan_i >= len(plans):
            info['attach'] = False; return info
        dm = dict(x[2:].split('=', 1) for x in case.split() + u.defs if x.startswith('-D') and '=' in x)
        for lp, sp, ren in plans[plan_i]:
            ren = dict(dm, **ren)
            edits += cast.contract_edits(lp, [rename(x, ren) for x in sp.get('inv', [])],
                                         [rename(x, ren) for x in sp.get('assigns', [])],
                                         rename(sp.get('decreases', ''), ren), rename(sp.get('ghost', ''), ren), rename(sp.get('ghost_end', ''), ren), sp.get('wrap', False), rename(sp.get('after', ''), ren))
        # loops without a contract are unwound completely first (unwinding assertions are obligations)
        annotated = set(id(lp) for lp, _, _ in plans[plan_i])
        info['pre'] = []
        for f in fns.values():
            if harness_fn(f.name): continue
            order = sorted(f.loops, key=lambda l: l.end)
            for k, l in enumerate(order):
                if id(l) not in annotated: info['pre'].append('%s.%d:%d' % (f.name, k, const_trips(l.header, unwind) + 1))
        text = cast.inject(text, edits)
        open(i, 'w', encoding='latin-1').write(text)
    info['attach'] = True
    gb = os.path.join(wd, 'a.gb')
    r, o, e = sh(['goto-cc', '-std=gnu99', '-x', 'c', '--function', 'harness', i] + [os.path.join(REPO, l) for l in u.links] + ['-I', os.path.join(REPO, 'include'), '-o', gb], 60)
    if r != 0: raise Compile('goto-cc: ' + (o + e)[-2500:])
    info['notes'] += link_undefined(gb, wd, 'VC_PROOF', u)
    for f in u.replace:
        r, o, e = sh(['goto-instrument', '--replace-calls', f, gb, gb + '.r'], 60)
        if r != 0: raise Compile('replace-calls %s: %s' % (f, (o + e)[-800:]))
        os.replace(gb + '.r', gb)
    if u.loops:
        r, o, e = sh(['goto-instrument', '--drop-unused-functions', gb, gb + '.d'], 60)
        if r == 0 and os.path.exists(gb + '.d'): os.replace(gb + '.d', gb)
    if u.loops and info.get('pre'):
        r, o, e = sh(['goto-instrument', '--unwindset', ','.join(info['pre']), '--unwinding-assertions', gb, gb + '.u'], 60)
        if r != 0 or not os.path.exists(gb + '.u'): raise Compile('unwind: ' + (o + e)[-800:])
        os.replace(gb + '.u', gb)
    if u.loops:
        r, o, e = sh(['goto-instrument', '--apply-loop-contracts', gb, gb + '.c'], 120)
        if r != 0 or not os.path.exists(gb + '.c'): raise Compile('loop contracts: ' + (o + e)[-1500:])
        os.replace(gb + '.c', gb)
    info['gb'] = gb
    return info

_pool = cf.ThreadPoolExecutor(8)
def solve(u, args, gb):
    if not u.split: return cbmc_json(args + [gb], min(u.timeout, left()))
    # one query per postcondition / invariant step, one for everything else
    rc, o, e = sh(['cbmc', '--json-ui', '--show-properties'] + args + [gb], 60)
    try: props = [p for m in json.loads(o) if 'properties' in m for p in m['properties']]
    except Exception: return cbmc_json(args + [gb], min(u.timeout, left()))
    hard, rest = [], []
    for p in props:
        d = p.get('description', '')
        if 'invariant is preserved' in d or d.startswith('CHECK') or any(x in d for x in u.split_more): hard.append([p['name']])
        else: rest.append(p['name'])
    n = max(1, u.split_rest); groups = hard + [rest[k::n] for k in range(n) if rest[k::n]]
    def one(g):
        a = list(args)
        for x in g: a += ['--property', x]
        return cbmc_json(a + [gb], min(u.timeout, left()))
    rs = list(_pool.map(one, groups))
    tot = sum(x[2] for x in rs)
    bad = [x for x in rs if x[0] != 'ok']
    res = [p for x in rs if x[0] == 'ok' for p in x[1]]
    # a failure that was found decides, even when another query ran out of time
    if bad and not any(p['status'] == 'FAILURE' and 'VCREACH' not in p.get('description', '') and 'instrumentation was not truncated' not in p.get('description', '') and not any(x in p.get('description', '') for x in u.ignore) for p in res):
        return bad[0][0], None, tot, bad[0][3] + ' (%d of %d queries)' % (len(bad), len(rs))
    return 'ok', res, tot, ''

def run_proof_case(u, case, base, tmp, keep=False):
    """status: proved | failed | unattached | undecided | error"""
    res = {'unit': u.name, 'case': case, 'obligations': 0, 'discharged': 0, 'time': 0.0, 'failed': [], 'notes': [], 'status': 'error'}
    unwind = u.unwind; plan = 0
    best = None
    while True:
        wd = tempfile.mkdtemp(dir=tmp)
        try:
            info = build_proof(u, case, wd, base, plan, unwind)
        except (Compile, RuntimeError, AssertionError, subprocess.TimeoutExpired) as x:
            res['status'] = 'error'; res['notes'].append(str(x)); 
            if best: return best
            return res
        res['notes'] = info['notes']; res['same'] = info.get('same', True); res['record'] = info.get('record')
        if not info['attach']:
            res['status'] = 'unattached'
            return best or res
        args = STD + ['--unwind', str(unwind), '--object-bits', str(u.objbits)]
        if u.solver == 'cadical': args += ['--sat-solver', 'cadical']
        elif u.solver == 'minisat': pass
        else: args += ['--' + u.solver]
        for x in u.unwindset: args += ['--unwindset', x]
        args += u.flags
        st, r, dt, msg = solve(u, args, info['gb'])
        res['time'] += dt
        if st != 'ok':
            res['status'] = 'undecided' if st == 'timeout' else 'error'
            res['notes'] = res['notes'] + ['cbmc: %s %s' % (st, msg)]
            if not keep: shutil.rmtree(wd, ignore_errors=True)
            return best or res
        reach = [p for p in r if 'VCREACH' in p.get('description', '')]
        # bookkeeping of the loop instrumentation (implied by the unwinding assertions); a jump to a label shared with the
        # code before the loop reads its dead flag and fails spuriously
        obs = [p for p in r if 'VCREACH' not in p.get('description', '') and not (p['status'] == 'FAILURE' and 'loop instrumentation was not truncated' in p.get('description', '')) and not any(x in p.get('description', '') for x in u.ignore)]
        failed = [p for p in obs if p['status'] == 'FAILURE']
        open_ = [p for p in obs if p['status'] not in ('FAILURE', 'SUCCESS')]
        vac = [p for p in reach if p['status'] == 'SUCCESS']
        res.update(obligations=len(obs), discharged=len(obs) - len(failed), failed=[ob_name(p) for p in failed],
                   names=[ob_name(p) for p in obs], reach=len(reach), vacuous=[p['description'] for p in vac])
        if not keep: shutil.rmtree(wd, ignore_errors=True)
        if open_ and not failed:
            res['status'] = 'undecided'; res['discharged'] = len(obs) - len(open_)
            res['notes'] = res['notes'] + ['cbmc left %d obligations open (%s)' % (len(open_), open_[0]['status'])]
            return best or res
        if not failed and not vac and reach and obs:
            res['status'] = 'proved'
            if plan: res['notes'].append('loop contract attached with renamed locals (plan %d)' % plan)
            return dict(res)
        # more unwinding?
        if failed and all('unwinding assertion' in p.get('description', '') for p in failed) and unwind < 4 * u.unwind + 8 and left() > 100:
            unwind = 2 * unwind + 4; continue
        if not failed and not reach: res['notes'].append('no reachability point')
        res['status'] = 'failed'
        if failed and all('unwinding' in p.get('description', '') for p in failed): res['status'] = 'undecided'
        best = best or dict(res)
        plan += 1
        if plan < info.get('nplans', 1) and left() > 120: continue
        return best

# ---- counterexample search -----------------------------------------------------------------
def bounded_case(u, case, tmp):
    """cbmc on the real loops, small inputs; -> (status, bytes or None, note)"""
    wd = tempfile.mkdtemp(dir=tmp)
    try:
        i = preprocess(u, case, 'VC_BOUNDED', wd, ['-DVC_BOUND=%d' % u.bound])
        gb = os.path.join(wd, 'b.gb')
        r, o, e = sh(['goto-cc', '-std=gnu99', '-x', 'c', '--function', 'harness', i] + [os.path.join(REPO, l) for l in u.links] + ['-I', os.path.join(REPO, 'include'), '-o', gb], 60)
        if r != 0: raise Compile('goto-cc: ' + (o + e)[-1500:])
        link_undefined(gb, wd, 'VC_BOUNDED', u)
        for f in u.replace:
            sh(['goto-instrument', '--replace-calls', f, gb, gb + '.r'], 60)
            if os.path.exists(gb + '.r'): os.replace(gb + '.r', gb)
    except Compile as x:
        return 'error', None, str(x)
    args = [a for a in STD if a != '--unwinding-assertions'] + ['--no-unwinding-assertions', '--unwind', str(u.bunwind), '--object-bits', str(max(u.objbits, 10)),
            '--sat-solver', 'cadical', '--trace'] + u.flags
    for x in u.unwindset: args += ['--unwindset', x]
    st, r, dt, msg = cbmc_json(args + [gb], min(u.btimeout, left() - 20))
    shutil.rmtree(wd, ignore_errors=True)
    if st != 'ok': return st, None, msg
    bad = [p for p in r if p['status'] == 'FAILURE' and 'VCREACH' not in p.get('description', '') and 'no body' not in p.get('description', '')]
    if not bad: return 'held', None, '%d obligations, bound %d, unwind %d' % (len(r), u.bound, u.bunwind)
    outs = []
    for p in bad[:4]:
        b = b''
        for s in p.get('trace', []):
            if s.get('stepType') == 'assignment' and s.get('lhs', '') in ('vc_nd_v1', 'vc_nd_v2', 'vc_nd_v8') and s.get('sourceLocation', {}).get('function', '').startswith('nd_'):
                w = int(s['lhs'][-1]); v = s['value']
                n = int(v['binary'], 2) if 'binary' in v else int(v.get('data', '0'))
                b += n.to_bytes(8, 'little')[:w]
        outs.append((ob_name(p), b))
    return 'failed', outs, ''

_lib = {}
def native_lib(tmp, cc, flags, key):
    """all of the library, compiled from the current tree"""
    if key in _lib: return _lib[key]
    d = tempfile.mkdtemp(dir=tmp)
    fs = sorted(glob.glob(os.path.join(REPO, 'src/*/*.c')))
    def one(f):
        ob = os.path.join(d, f.replace('/', '_') + '.o')
        r, o, e = sh([cc, '-std=gnu99', '-D_GNU_SOURCE', '-w', '-g', '-O1'] + flags + ['-I', os.path.join(REPO, 'include'), '-c', f, '-o', ob], 60, nolim=True)
        return ob if r == 0 else None
    with cf.ThreadPoolExecutor(8) as ex: obs = [o for o in ex.map(one, fs) if o]
    a = os.path.join(d, 'lib.a')
    sh(['ar', 'rcs', a] + obs, 60)
    _lib[key] = a
    return a

def native_build(u, case, tmp, fuzz):
    cc = 'clang'
    san = ['-fsanitize=fuzzer,address' if fuzz else '-fsanitize=address', '-fno-omit-frame-pointer']
    libsan = ['-fsanitize=fuzzer-no-link,address' if fuzz else '-fsanitize=address', '-fno-omit-frame-pointer']
    lib = native_lib(tmp, cc, libsan, fuzz)
    out = tempfile.mktemp(dir=tmp, prefix='nat')
    cmd = [cc, '-std=gnu99', '-D_GNU_SOURCE', '-DVC_NATIVE', '-w', '-g', '-O1'] + (['-DVC_FUZZ'] if fuzz else []) + san + case.split() + u.defs + \
          ['-I', HERE, '-I', UNITS, '-I', REPO, '-I', os.path.join(REPO, 'include'), u.path, os.path.join(HERE, 'native.c'), lib, '-o', out, '-lm']
    r, o, e = sh(cmd, 90, nolim=True)
    if r != 0: raise Compile('native: ' + e[-1500:])
    return out

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0')

def replay(u, case, tmp, data, exact, exe=None):
    exe = exe or native_build(u, case, tmp, False)
    f = tempfile.mktemp(dir=tmp, prefix='in')
    open(f, 'wb').write(data)
    r, o, e = sh([exe] + (['-e'] if exact else []) + [f], 15, nolim=True, env=ENV, cwd=tmp)
    if r == 0: return 'held', e
    if r == 77: return 'rejected', e
    if r == 'timeout': return 'failed', e + '\nno termination within 15 s'
    return 'failed', e

def fuzz_case(u, case, tmp, secs):
    try:
        exe = native_build(u, case, tmp, True); rexe = native_build(u, case, tmp, False)
    except Compile as x: return 'error', None, str(x)
    d = tempfile.mkdtemp(dir=tmp)
    procs = 3
    def one(k):
        wd = os.path.join(d, str(k)); os.makedirs(wd + '/c', exist_ok=True)
        r, o, e = sh([exe, '-seed=%d' % (SEED * 100 + k), '-max_total_time=%d' % secs, '-max_len=%d' % u.fuzzlen, '-timeout=8',
                      '-rss_limit_mb=3000', '-use_value_profile=%d' % (k % 2), '-len_control=%d' % (0 if k else 100), wd + '/c'], secs + 30, nolim=True, env=ENV, cwd=wd)
        c = sorted(glob.glob(wd + '/crash-*') + glob.glob(wd + '/timeout-*'))
        m = re.findall(r'stat::number_of_executed_units:\s*(\d+)|#(\d+)', e)
        n = max([int(a or b) for a, b in m] or [0])
        return c, n
    with cf.ThreadPoolExecutor(procs) as ex: rs = list(ex.map(one, range(procs)))
    n = sum(x[1] for x in rs)
    for c, _ in rs:
        for f in c:
            data = open(f, 'rb').read()
            st, e = replay(u, case, tmp, data, False, rexe)
            if st == 'failed': return 'failed', (data, e), '%d executions' % n
    return 'held', None, '%d executions' % n

def search(u, cases, tmp, share):
    """look for an input on which the real code violates the contract"""
    notes = []
    if u.nosearch or NOSEARCH: return None, ['no native search for this unit'], True
    bounded_ok = True   # something other than the proof ran on this tree and found nothing
    for case in (u.bcases or cases):
        def doB():
            if u.nobounded: return ('skipped', None, '')
            return bounded_case(u, case, tmp)
        def doF():
            if u.nofuzz: return ('skipped', None, '')
            return fuzz_case(u, case, tmp, min(u.fuzzsecs, max(10, share)))
        with cf.ThreadPoolExecutor(2) as ex:
            fb, ff = ex.submit(doB), ex.submit(doF)
            st, r, note = ff.result(); fst = st
            notes.append('fuzz %s%s: %s %s' % (u.name, case and '[' + case + ']', st, note))
            if st == 'failed':
                return {'how': 'native search', 'case': case, 'data': r[0], 'exact': False, 'output': r[1]}, notes, True
            st, r, note = fb.result()
        notes.append('bounded %s%s: %s %s' % (u.name, case and '[' + case + ']', st, note))
        if st == 'failed':
            for ob, data in r:
                try: s2, e = replay(u, case, tmp, data, True)
                except Compile as x: s2, e = 'error', str(x)
                if s2 == 'failed':
                    return {'how': 'cbmc counterexample', 'case': case, 'data': data, 'exact': True, 'output': e, 'ob': ob}, notes, True
                notes.append('counterexample of %s not reproduced natively (%s)' % (ob, s2))
            if fst != 'held': bounded_ok = False
        elif st != 'held' and fst != 'held': bounded_ok = False
        if left() < 60: break
    return None, notes, bounded_ok

def load_units():
    return [Unit(p) for p in sorted(glob.glob(os.path.join(UNITS, '*.c')))]

def write_replay(prop, u, found, failed, notes):
    d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (prop, u.name))
    with open(p, 'w') as f:
        f.write('property %s, unit %s (functions: %s)\n' % (prop, u.name, ', '.join(u.functions)))
        f.write('failed obligations:\n' + ''.join('  %s\n' % x for x in failed[:40]))
        if found:
            f.write('\nfailing input found by %s, case "%s"\n' % (found['how'], found['case']))
            b = os.path.join(d, '%s-%s.bin' % (prop, u.name)); open(b, 'wb').write(found['data'])
            f.write('input bytes: %s\n' % found['data'].hex())
            f.write('replay: clang -std=gnu99 -D_GNU_SOURCE -DVC_NATIVE -w -g -fsanitize=address %s -I%s -I%s -I%s -I%s/include %s %s/native.c %s/lib/libulz.a -o /tmp/replay && /tmp/replay %s%s\n' %
                    (' '.join([found['case']] + u.defs), HERE, UNITS, REPO, REPO, u.path, HERE, REPO, '-e ' if found['exact'] else '', b))
            f.write('\noutput of the real code on it:\n' + found['output'][-6000:] + '\n')
        else:
            f.write('\nno failing input found\n')
        f.write('\nnotes:\n' + ''.join('  %s\n' % n for n in notes))
    return p

def main():
    global VERBOSE
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick'); only = None; record = False; prop = None; keep = False
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--unit': only = a.pop(0)
        elif x == '--record': record = True
        elif x == '--keep': keep = True
        elif x == '--fuzzonly': FUZZONLY.append(int(a.pop(0)))
        elif x == '--nosearch': NOSEARCH.append(1)
        elif x == '-v': VERBOSE = True
        else: prop = x
    units = [u for u in load_units() if (prop is None or prop in u.props) and (only is None or u.name == only)]
    if tier != 'thorough': units = [u for u in units if u.tier == 'quick']
    if not units: print('no units for', prop); return 2
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    if record: base0, base = base, {k: v for k, v in base.items() if k not in [u.name for u in units]}
    tmp = tempfile.mkdtemp(prefix='ulzvc.')
    try:
        return check(prop, units, base, tmp, tier, record, keep)
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)

def check(prop, units, base, tmp, tier, record, keep):
    if FUZZONLY:   # development aid: run only the stand-ins
        for u in units:
            for c in u.bcases or u.cases:
                if not u.nofuzz: st, r, n = fuzz_case(u, c, tmp, FUZZONLY[0]); print(u.name, c, st, n, r[1][-900:] if r else '')
                if not u.nobounded: st, r, n = bounded_case(u, c, tmp); print(u.name, c, 'bounded', st, n, [x[0] for x in r or []])
        return 0
    jobs = []
    for u in units:
        cs = u.cases + (u.thorough_cases if tier == 'thorough' else [])
        for c in cs: jobs.append((u, c))
    jobs.sort(key=lambda j: -j[0].timeout)
    results = {}
    def go(j):
        u, c = j
        if u.bounded_only:
            st, r, n = bounded_case(u, c, tmp)
            res = {'unit': u.name, 'case': c, 'obligations': 0, 'discharged': 0, 'time': 0, 'failed': [x[0] for x in (r or [])], 'notes': [n],
                   'status': {'held': 'bounded', 'failed': 'failed'}.get(st, 'error' if st == 'error' else 'undecided'), 'same': False}
            log(u.name, c, res['status'], n); return res
        r = run_proof_case(u, c, base, tmp, keep)
        log('%-28s %-24s %-10s %4d/%4d %6.1fs %s' % (u.name, c, r['status'], r['discharged'], r['obligations'], r['time'], '; '.join(r['notes'])[:1500] if r['status'] != 'proved' else ''))
        if r['status'] == 'failed':
            for x in r['failed'][:12] + r.get('vacuous', []): log('     FAILED', x)
        return r
    with cf.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        for j, r in zip(jobs, ex.map(go, jobs)): results.setdefault(j[0].name, []).append(r)
    if record:
        b = json.load(open(BASE)) if os.path.exists(BASE) else {}
        for u in units:
            if u.loops and results[u.name][0].get('record'): b[u.name] = results[u.name][0]['record']
        json.dump(b, open(BASE, 'w'), indent=1, sort_keys=True); open(BASE, 'a').write('\n')
    known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else []
    violations = []; downgraded = []; errors = []; ev_units = []
    bad = [(u, [r for r in results[u.name] if r['status'] not in ('proved', 'bounded')]) for u in units]
    nbad = sum(1 for _, b in bad if b)
    for u, b in bad:
        if b:
            share = max(10, (left() - 60) / max(1, nbad) / max(1, len(u.bcases or [r['case'] for r in b])) - 15); nbad -= 1
            failed = [x for r in b for x in r['failed']] + ['vacuous: ' + v for r in b for v in r.get('vacuous', [])]
            notes = [n for r in b for n in r['notes']]
            found, n2, bok = search(u, [r['case'] for r in b], tmp, share)
            notes += n2
            log(u.name, 'search:', 'FOUND' if found else 'none', n2)
            if found:
                p = write_replay(prop, u, found, failed, notes)
                violations.append((u, p, ''))
            elif any(r['status'] == 'failed' and (r.get('same', False) or not u.loops) for r in b):
                p = write_replay(prop, u, None, failed, notes)
                violations.append((u, p, ' no-failing-input-found'))
            elif all(r['status'] == 'error' for r in b) and not bok:
                errors.append((u, notes))
            else:
                downgraded.append((u, failed, notes))
        ev_units.append(u)
    # evidence
    proved = [r for u in units for r in results[u.name] if r['status'] == 'proved']
    ob = sum(r['obligations'] for u in units for r in results[u.name]); dis = sum(r['discharged'] for u in units for r in results[u.name])
    bounded_units = [u.name for u in units if any(r['status'] != 'proved' for r in results[u.name])]
    assumptions = sorted(set(x for u in units for x in u.assume)) + \
        ['assumed contract: ' + x for x in sorted(set(x for u in units for x in u.stubs))] + \
        ['signed overflow is not an obligation: machine arithmetic is modelled as two\'s complement wrap-around, LP64 as compiled here',
         'object sizes up to the bound stated per unit (default lengths below 2^32 bytes); cbmc memory model; gcc compiles the C semantics cbmc uses']
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': level_of(prop),
          'coverage': {'obligations': ob, 'discharged': dis,
                       'checker_cmd': 'python3 /verif/engine/run.py %s --tier %s' % (prop, tier),
                       'trusted_base': ['cbmc 6.11.0 / goto-instrument (loop contracts)', 'CaDiCaL (cbmc built-in)', 'clang AST (placement of loop contracts only)', 'gcc -E'],
                       'functions_under_contract': sorted(set(f for u in units for f in u.functions)),
                       'units': [{'unit': u.name, 'functions': u.functions, 'lemma': u.lemma, 'loop_contracts': len(u.loops),
                                  'cases': [{'case': r['case'], 'status': r['status'], 'obligations': r['obligations'], 'discharged': r['discharged'],
                                             'reach_points': r.get('reach', 0), 'solver_s': round(r['time'], 2), 'notes': r['notes']} for r in results[u.name]],
                                  'stubs': u.stubs, 'bounded': u.bounded_only} for u in units],
                       'backend': 'cbmc with ' + ', '.join(sorted(set({'cadical': 'SAT (CaDiCaL, built in)', 'z3': 'SMT (Z3)', 'cvc5': 'SMT (cvc5)'}.get(u.solver, u.solver) for u in units))), 'solver_s': round(sum(r['time'] for u in units for r in results[u.name]), 2),
                       'bounded_units': bounded_units},
          'assumptions': assumptions, 'wall_s': round(time.time() - T0, 1), 'violations': len(violations)}
    if downgraded:
        ev['coverage']['downgraded_to_bounded'] = [{'unit': u.name, 'failed': f[:20], 'notes': n[:20]} for u, f, n in downgraded]
    os.makedirs(EVID, exist_ok=True)
    if prop: json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for k in known:
        if k.get('status') == 'open' and k.get('property') == prop: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for u, f, n in downgraded: print('note: %s not proved on this tree (%s); bounded stand-in found no violation' % (u.name, (f or n or ['?'])[0][:200]))
    for u, n in errors: print('error: unit %s: %s' % (u.name, ' | '.join(n)[:1500]))
    print('%s: %d units, %d/%d obligations discharged, %.1fs' % (prop, len(units), dis, ob, time.time() - T0))
    for u, p, sfx in violations: print('VIOLATION property=%s replay=%s%s' % (prop, p, sfx))
    if violations: return 1
    if errors: return 2
    return 0

def level_of(prop):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop: return c['level']
    except Exception: pass
    return 'proof'

if __name__ == '__main__': sys.exit(main())
