"""Turn the state graph TLC dumped (-dump dot) into walks that take every
transition, i.e. every (state, operation) pair of the model, at least once."""
import re, collections

def load(dot):
    nodes, edges, init = {}, [], []
    ren = re.compile(r'^(-?\d+) \[label="(.*)"(,style = filled)?\];?$')
    ree = re.compile(r'^(-?\d+) -> (-?\d+)')
    with open(dot) as f:
        for line in f:
            line = line.rstrip('\n')
            m = ree.match(line)
            if m:
                edges.append((m.group(1), m.group(2)))
                continue
            m = ren.match(line)
            if m:
                lab = m.group(2)
                parts = re.split(r'(?:^|\\n)/\\\\ (\w+) = ', lab)
                d = dict(zip(parts[1::2], parts[2::2]))
                act = d.pop('act').strip()
                act = act.replace('\\\\', '\x00').replace('\\"', '"').replace('\x00', '\\')
                # the value is a TLA+ string: quotes around, \" inside
                act = act[1:-1].replace('\\"', '"')
                key = tuple(sorted(d.items()))
                nodes[m.group(1)] = (key, act)
                if m.group(3):
                    init.append(m.group(1))
    return nodes, edges, init

def walks(dot, maxlen=400):
    nodes, edges, init = load(dot)
    ids = {}
    def kid(k):
        return ids.setdefault(k, len(ids))
    succ = collections.defaultdict(dict)   # key -> act -> key
    for a, b in edges:
        ka, (kb, act) = kid(nodes[a][0]), nodes[b]
        succ[ka].setdefault(act, kid(kb))
    k0 = kid(nodes[init[0]][0])
    todo = {k: set(v) for k, v in succ.items()}
    total = sum(len(v) for v in todo.values())
    out, left = [], total
    while left:
        k, w = k0, []
        while left and len(w) < maxlen:
            if todo.get(k):
                act = min(todo[k])
                todo[k].discard(act); left -= 1
                w.append(act); k = succ[k][act]
                continue
            # nearest state with something left
            prev, q, goal = {k: None}, collections.deque([k]), None
            while q:
                x = q.popleft()
                if todo.get(x):
                    goal = x; break
                for act, y in succ[x].items():
                    if y not in prev:
                        prev[y] = (x, act); q.append(y)
            if goal is None:
                break
            path = []
            while prev[goal]:
                x, act = prev[goal]; path.append(act); goal = x
            path.reverse()
            for act in path:
                w.append(act); k = succ[k][act]
        if not w:
            break
        out.append(w)
    return out, dict(states=len(ids), transitions=total, walks=len(out), ops=sum(map(len, out)), uncovered=left)

if __name__ == '__main__':
    import sys
    w, s = walks(sys.argv[1])
    print(s); print(w[0][:5])
