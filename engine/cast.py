"""Locate loops of the real code in a preprocessed translation unit (clang AST) and
inject loop contracts at them.  Nothing of the code itself is changed: text is only added."""
import json, re, subprocess

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')

def off(p):
    if 'offset' in p: return p['offset']
    for k in ('expansionLoc', 'spellingLoc'):
        if k in p and 'offset' in p[k]: return p[k]['offset']
    return None

def endoff(p):
    o = off(p)
    return None if o is None else o + p.get('tokLen', p.get('expansionLoc', {}).get('tokLen', 0))

def ast(ifile):
    r = subprocess.run(['clang', '-std=gnu99', '-w', '-x', 'cpp-output', '-fsyntax-only', '-ferror-limit=0',
                        '-Xclang', '-ast-dump=json', ifile], capture_output=True, text=True, timeout=120)
    if not r.stdout: raise RuntimeError('clang: ' + r.stderr[-2000:])
    return json.loads(r.stdout), r.stderr

def kids(n): return [c for c in n.get('inner', []) if c]

def strip(n):
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and kids(n): n = kids(n)[-1]
    return n

def base_decl(n):
    """variable behind an lvalue -> (name, id, whole-array?) or None if through a pointer"""
    n = strip(n)
    k = n.get('kind')
    if k == 'DeclRefExpr':
        d = n.get('referencedDecl', {})
        if d.get('kind') in ('VarDecl', 'ParmVarDecl'):
            return d['name'], d['id'], False
        return None
    if k == 'MemberExpr' and not n.get('isArrow') and kids(n):
        return base_decl(kids(n)[0])
    if k == 'ArraySubscriptExpr' and kids(n):
        b = kids(n)[0]
        # only arrays (array-to-pointer decay), not pointers
        if b.get('kind') == 'ImplicitCastExpr' and b.get('castKind') == 'ArrayToPointerDecay':
            r = base_decl(kids(b)[0])
            return r and (r[0], r[1], True)
    return None

class Fn:
    def __init__(s, node, text):
        s.name = node['name']; s.node = node; s.loops = []; s.locals = []; s.text = text
        s.begin = off(node['range']['begin']); s.end = endoff(node['range']['end'])
        s.calls = set()
        s.walk(node, 0)
    def walk(s, n, depth):
        k = n.get('kind')
        if k in ('VarDecl', 'ParmVarDecl') and 'name' in n:
            s.locals.append((n['name'], n['type']['qualType'], n['id'], off(n['range']['begin'])))
        if k == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
            s.calls.add(n['referencedDecl']['name'])
        if k in LOOPS:
            s.loops.append(Loop(s, n, depth)); depth += 1
        for c in kids(n): s.walk(c, depth)

class Loop:
    def __init__(s, fn, n, depth):
        s.fn, s.node, s.kind, s.depth = fn, n, n['kind'], depth
        s.begin = off(n['range']['begin']); s.end = endoff(n['range']['end'])
        ks = [c for c in n.get('inner', [])]
        if s.kind == 'DoStmt': body = ks[0]
        else: body = ks[-1]
        s.bbegin = off(body['range']['begin']); s.compound = body.get('kind') == 'CompoundStmt'
        s.bend = endoff(body['range']['end'])
        # a non-compound body statement does not include its ';' (unless it is itself a block-ended statement)
        t = fn.text
        if not s.compound:
            last = body
            if t[s.bend-1:s.bend] not in ('}', ';'):
                e = s.bend
                while t[e] != ';': e += 1
                s.bend = e + 1
            elif t[s.bend-1:s.bend] == ';': pass
        s.header = re.sub(r'\s+', '', t[s.begin:s.bbegin]) if s.kind != 'DoStmt' else \
            'do' + re.sub(r'\s+', '', t[s.bend:s.end])
        s.inner_decls = set(); s.assigned = {}
        s.scan(n)
    def scan(s, n):
        k = n.get('kind')
        if k in ('VarDecl',): s.inner_decls.add(n['id'])
        lv = None
        if k == 'BinaryOperator' and n.get('opcode') == '=': lv = kids(n)[0]
        elif k == 'CompoundAssignOperator': lv = kids(n)[0]
        elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): lv = kids(n)[0]
        elif k == 'UnaryOperator' and n.get('opcode') == '&': lv = kids(n)[0]
        if lv is not None:
            d = base_decl(lv)
            if d: s.assigned[d[1]] = (d[0], d[2])
        # a local array decaying into a pointer that is passed on counts as assigned
        for c in kids(n): s.scan(c)
    def assigned_locals(s):
        # variables declared inside the loop *header* (for(int i=0;..)) live in the loop scope but are
        # visible at the invariant; those in the body are not
        r = []
        hdr = set()
        if s.kind == 'ForStmt':
            init = s.node['inner'][0]
            def w(n):
                if n.get('kind') == 'VarDecl': hdr.add(n['id'])
                for c in kids(n): w(c)
            if init: w(init)
        for i, (name, arr) in s.assigned.items():
            if i in s.inner_decls and i not in hdr: continue
            r.append('__CPROVER_object_whole(%s)' % name if arr else name)
        return sorted(set(r))

def functions(ifile):
    text = open(ifile).read()
    root, err = ast(ifile)
    # byte offsets == character offsets only for ASCII
    if not text.isascii():
        text = open(ifile, encoding='latin-1').read()
    fns = {}
    for n in root.get('inner', []):
        if n.get('kind') == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in kids(n)):
            fns[n['name']] = Fn(n, text)
    return fns, text

def inject(text, edits):
    """edits: list of (offset, deleted-length, string)"""
    out = []; last = 0
    for o, d, s in sorted(edits, key=lambda e: (e[0], e[1])):
        assert o >= last, 'overlapping edits'
        out.append(text[last:o]); out.append(s); last = o + d
    out.append(text[last:])
    return ''.join(out)

def contract_edits(loop, invs, assigns, decreases, ghost_begin='', ghost_end='', wrap=False, after=''):
    """insert the contract; a do-while is first put in the equivalent form
       for(_Bool vc_first = 1; vc_first || (cond); vc_first = 0) body
    (cbmc has no contracts for do-while; 'continue' and 'break' keep their meaning)"""
    tg = loop.assigned_locals() + list(assigns)
    if loop.kind == 'DoStmt': tg.append('vc_first')
    c = ' __CPROVER_assigns(' + ', '.join(tg) + ')'
    for i in invs: c += ' __CPROVER_loop_invariant(' + ' '.join(i.split()) + ')'
    if decreases: c += ' __CPROVER_decreases(' + ' '.join(decreases.split()) + ')'
    g = ' '.join(ghost_begin.split()); ge = ' '.join(ghost_end.split())
    e = []
    t = loop.fn.text
    if loop.kind == 'DoStmt':
        m = re.match(r'\s*while\s*', t[loop.bend:loop.end])
        cond = t[loop.bend + m.end():loop.end]
        assert t[loop.begin:loop.begin+2] == 'do'
        e.append((loop.begin, 2, 'for(_Bool vc_first = 1; vc_first || %s; vc_first = 0)' % cond))
        # drop the trailing while(cond), keep line structure
        e.append((loop.bend, loop.end - loop.bend, '\n' * t[loop.bend:loop.end].count('\n')))
    if loop.compound:
        e.append((loop.bbegin, 0, c + ' '))
        if g: e.append((loop.bbegin + 1, 0, ' ' + g + ' '))
        if ge: e.append((loop.bend - 1, 0, ' ' + ge + ' '))
    else:
        e += [(loop.bbegin, 0, c + ' { ' + g + ' '), (loop.bend, 0, ge + ' }')]
    if (wrap or after) and loop.kind != 'DoStmt':
        # ghost statements before and behind the loop: a jump to a label there does not look like the loop's own exit
        e = [(loop.begin, 0, '{ vc_lp = 0; ')] + e + [(loop.bend, 0, ' vc_lp = 1; ' + after + ' }')]
    return e

def redirect_edits(fns, m):
    """calls of m's keys made by the given functions go to the contract stub instead (the callee's own proof is another unit)"""
    e = []
    def w(n, t):
        if n.get('kind') == 'CallExpr' and kids(n):
            c = strip(kids(n)[0]); d = c.get('referencedDecl', {})
            if d.get('kind') == 'FunctionDecl' and d.get('name') in m:
                o = off(c['range']['begin'])
                if t[o:o + len(d['name'])] == d['name']: e.append((o, len(d['name']), m[d['name']]))
        if n.get('kind') == 'BinaryOperator' and n.get('opcode') in m and len(kids(n)) == 2:
            # an arithmetic operator stands for its (axiomatised) function
            l, r = kids(n); b, le, rb, re_ = off(l['range']['begin']), endoff(l['range']['end']), off(r['range']['begin']), endoff(r['range']['end'])
            k = t.find(n['opcode'], le, rb)
            if None not in (b, le, rb, re_) and k >= 0:
                e.append((b, 0, m[n['opcode']] + '(')); e.append((k, len(n['opcode']), ',')); e.append((re_, 0, ')'))
        for c in kids(n): w(c, t)
    for f in fns: w(f.node, f.text)
    return e
