"""Specification -> code: dumps the labelled state graph of a small instance with
TLC and turns it into walks that take every transition at least once."""
import os, re, collections
import vp


def parse_value(s, i=0):
    """Parses a TLA+ value printed by TLC (ints, strings, booleans, records,
    sequences, sets, functions as dicts)."""
    n = len(s)

    def ws(i):
        while i < n and s[i] in ' \n\r\t':
            i += 1
        return i
    i = ws(i)
    if s.startswith('<<', i):
        i = ws(i + 2)
        out = []
        while not s.startswith('>>', i):
            v, i = parse_value(s, i)
            out.append(v)
            i = ws(i)
            if s[i] == ',':
                i = ws(i + 1)
        return out, i + 2
    if s[i] == '[':
        i = ws(i + 1)
        out = {}
        while s[i] != ']':
            m = re.compile(r'\s*([A-Za-z0-9_]+)\s*\|->').match(s, i)
            v, i = parse_value(s, m.end())
            out[m.group(1)] = v
            i = ws(i)
            if s[i] == ',':
                i = ws(i + 1)
        return out, i + 1
    if s[i] == '{':
        i = ws(i + 1)
        out = []
        while s[i] != '}':
            v, i = parse_value(s, i)
            out.append(v)
            i = ws(i)
            if s[i] == ',':
                i = ws(i + 1)
        return out, i + 1
    if s[i] == '(':
        i = ws(i + 1)
        out = {}
        while s[i] != ')':
            k, i = parse_value(s, i)
            i = ws(i)
            assert s.startswith(':>', i)
            v, i = parse_value(s, i + 2)
            out[k if not isinstance(k, list) else tuple(k)] = v
            i = ws(i)
            if s.startswith('@@', i):
                i = ws(i + 2)
        return out, i + 1
    if s[i] == '"':
        j = s.index('"', i + 1)
        return s[i + 1:j], j + 1
    m = re.compile(r'-?\d+|TRUE|FALSE|[A-Za-z_][A-Za-z0-9_]*').match(s, i)
    t = m.group(0)
    if t in ('TRUE', 'FALSE'):
        return t == 'TRUE', m.end()
    if re.fullmatch(r'-?\d+', t):
        return int(t), m.end()
    return t, m.end()


def dump(ctx, module, cfg=None, var='ev', timeout=300):
    out = os.path.join(ctx.work, 'graph-' + module + (cfg or ''))
    r = vp.tlc(vp.SPECS, module + '.tla', cfg or module + '.cfg', ctx.work, workers=1,
               timeout=timeout, heap='4g', extra=['-dump', 'dot', out], fast=False)
    if not r.ok:
        raise vp.CheckError('graph of %s: %s' % (module, r.out[-2000:]))
    nodes, edges, init = {}, collections.defaultdict(list), []
    rx = re.compile(r'/\\ %s = ' % var)
    with open(out + '.dot') as f:
        for line in f:
            m = re.match(r'^(-?\d+) -> (-?\d+)', line)
            if m:
                if m.group(1) != m.group(2):
                    edges[m.group(1)].append(m.group(2))
                continue
            m = re.match(r'^(-?\d+) \[(?:shape=\w+,)?label="(.*)"(.*)\]', line)
            if m:
                lab = m.group(2).replace('\\n', '\n').replace('\\"', '"').replace('\\\\', '\\')
                mm = rx.search(lab)
                if not mm:
                    if lab.strip().startswith(var + ' = '):
                        v, _ = parse_value(lab, lab.index('=') + 1)
                    else:
                        raise vp.CheckError('no %s in %s' % (var, lab))
                else:
                    v, _ = parse_value(lab, mm.end())
                nodes[m.group(1)] = v
                if 'style = filled' in m.group(3):
                    init.append(m.group(1))
    os.unlink(out + '.dot')
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.notes.setdefault('graphs', []).append(
        {'module': module, 'nodes': len(nodes), 'edges': sum(len(set(v)) for v in edges.values())})
    return nodes, {k: sorted(set(v)) for k, v in edges.items()}, init


def walks(nodes, edges, init, rng, maxlen=400, maxwalks=None):
    """Walks (lists of node values, without the initial one) that together take
    every edge."""
    todo = {k: list(v) for k, v in edges.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = sum(len(v) for v in todo.values())
    total = left
    res = []
    while left:
        if maxwalks and len(res) >= maxwalks:
            break
        cur = init[0]
        path = []
        stuck = False
        while len(path) < maxlen and left:
            if todo.get(cur):
                nxt = todo[cur].pop()
                left -= 1
                path.append(nxt)
                cur = nxt
                continue
            # shortest way to a node with an untaken edge
            prev = {cur: None}
            dq = collections.deque([cur])
            goal = None
            while dq:
                u = dq.popleft()
                if todo.get(u):
                    goal = u
                    break
                for w in edges.get(u, ()):
                    if w not in prev:
                        prev[w] = u
                        dq.append(w)
            if goal is None:
                stuck = not path
                break
            seg = []
            while goal != cur:
                seg.append(goal)
                goal = prev[goal]
            path += reversed(seg)
            cur = path[-1]
        if path:
            res.append([nodes[p] for p in path])
        if stuck:
            break
    return res, total - left, total
