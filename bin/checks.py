"""What each property's check explores."""
import re
from __main__ import cfgrec, NoAnswer

TRACKER = ['Dict <- TraceDict']
NOTE_DB = 'virtual clock and pool shims replace time/sync in the driver build; loopback only; TLC and the trace reader are trusted'

def db(ctx, aspects, seed, n, profile='default', world='std', tags='', variant='plain'):
    t = ctx.drive('db', dict(seed=seed, n=n, profile=profile, world=world), tags=tags, variant=variant)
    return ctx.validate(t, 'TrackerTrace', aspects, TRACKER)

def db_script(ctx, aspects, script, tags=''):
    t = ctx.drive('db', dict(seed=0, n=0, script=script, probe=1), tags=tags)
    return ctx.validate(t, 'TrackerTrace', aspects, TRACKER)

def mc_consts(hs, ps, vals, expiry, steps, backup):
    s = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    return ['Dict <- MCDict', 'Hs = ' + s(hs), 'Ps = ' + s(ps), 'Vals <- ' + vals, 'Expiry = %d' % expiry,
            'Steps = {%s}' % ', '.join(map(str, steps)), 'WithBackup = %s' % ('TRUE' if backup else 'FALSE')]

INV = ['C01', 'C02', 'C04', 'C06']
PROP = ['C05', 'Isolation']

def db_model(ctx, aspects, small=False, backup=False, tags=''):
    """every transition of the small models, executed on the real database"""
    def one(name, *a):
        f = ctx.model_script(name, 'TrackerMC', mc_consts(*a), cfgrec(expiry=a[3], numdef=3, numlim=5), INV, PROP)
        db_script(ctx, aspects, f, tags)
    jobs = []
    if backup:
        jobs.append(lambda: one('1 torrent, 2 peers, backups', ['h1'], ['p1', 'p2'], 'MCVals1', 1, [2], True))
        if ctx.thorough:
            jobs.append(lambda: one('2 torrents, 1 peer, backups', ['h1', 'h2'], ['p1'], 'MCVals', 1, [1], True))
    else:
        jobs.append(lambda: one('1 torrent, 2 peers', ['h1'], ['p1', 'p2'], 'MCVals', 2, [1, 2], False))
        jobs.append(lambda: one('2 torrents, 1 peer', ['h1', 'h2'], ['p1'], 'MCVals', 1, [1], False))
        if ctx.thorough:
            jobs.append(lambda: one('2 torrents, 2 peers', ['h1', 'h2'], ['p1', 'p2'], 'MCVals1', 1, [2], False))
            jobs.append(lambda: one('1 torrent, 3 peers', ['h1'], ['p1', 'p2', 'p3'], 'MCVals1', 1, [1], False))
    return jobs

def db_random(ctx, aspects, profiles, tags='', scale=1):
    n = 40 * (8 if ctx.thorough else 1) * scale
    k = 4 if ctx.thorough else 1
    jobs = []
    for p in profiles:
        for i in range(k):
            s = ctx.rng('db%s%d' % (p, i)).randrange(1 << 40)
            jobs.append(lambda p=p, s=s: db(ctx, aspects, s, n, p, tags=tags))
    return jobs

def c01(ctx):
    a = {'members'}
    ctx.parallel(db_model(ctx, a) + db_random(ctx, a, ['default', 'expiry', 'restart']) + srv_model(ctx, a | {'status'}) + srv_random(ctx, a | {'status'}, ('default', 5)))
    return 'model_checking', [NOTE_DB]

def c02(ctx):
    a = {'counts'}
    jobs = db_model(ctx, a) + db_random(ctx, a, ['default', 'crowd', 'restart']) + srv_random(ctx, a, ('default', 5))
    jobs.append(lambda: db(ctx, a, 0, 0, 'huge'))
    jobs += srv_random(ctx, a, ('huge', 1), k=2 if ctx.thorough else 1)
    ctx.parallel(jobs)
    return 'model_checking', [NOTE_DB]

def c04(ctx):
    a = {'lists'}
    jobs = db_model(ctx, a) + db_random(ctx, a, ['default', 'expiry']) + srv_random(ctx, a, ('default', 5))
    jobs.append(lambda: db(ctx, a, ctx.rng('big').randrange(1 << 40), 20 if ctx.thorough else 5, world='big'))
    ctx.parallel(jobs)
    return 'model_checking', [NOTE_DB]

def c05(ctx):
    a = {'members', 'hashes', 'counts'}
    ctx.parallel(db_model(ctx, a) + db_random(ctx, a, ['expiry', 'default', 'expiry']) + [lambda: db(ctx, a, 0, 0, 'huge')])
    return 'model_checking', [NOTE_DB]

def c06(ctx):
    a = {'metrics'}
    jobs = db_model(ctx, a) + db_model(ctx, a, backup=True) + db_random(ctx, a, ['default', 'crowd', 'restart', 'expiry'])
    jobs.append(lambda: db(ctx, a, 0, 0, 'huge'))
    for k in range(2):
        jobs.append(lambda k=k: conc(ctx, a, 'pairs', part=k, parts=2, bound=1))
        s = ctx.rng('conc%d' % k).randrange(1 << 40)
        jobs.append(lambda s=s: conc(ctx, a, 'random', seed=s, n=2000 if ctx.thorough else 200, per=20))
    jobs.append(lambda: conc(ctx, a, 'startup', bound=2, max=3000))
    jobs.append(lambda: conc(ctx, a, 'stress', variant='plain', seed=ctx.rng('stress').randrange(1 << 40), n=100))
    ctx.parallel(jobs)
    return 'model_checking', [NOTE_DB, NOTE_CONC]

# ---------------------------------------------------------------- the servers
NOTE_SRV = ('real servers on loopback sockets, one request at a time unless said otherwise; time is virtual for the tracker, real for sockets; '
            'TLC and the trace recorder are trusted')

def srv(ctx, aspects, profile, seed, n, tags='', race=False, variant='plain', **kw):
    a = dict(seed=seed, n=n, profile=profile, repo=ctx.repo)
    if 'heroku' in tags:
        a['heroku'] = 1
    a.update(kw)
    t = ctx.drive('srv', a, tags=tags, race=race, variant=variant, timeout=250)
    return ctx.validate(t, 'ServerTrace', aspects, TRACKER)

def srv_random(ctx, aspects, *runs, k=None):
    """runs: (profile, segments[, tags])"""
    k = k or (8 if ctx.thorough else 2)
    jobs = []
    for j, r in enumerate(runs):
        profile, n, tags = (r + ('',))[:3]
        for i in range(k):
            s = ctx.rng('srv%s%d%d' % (profile, j, i)).randrange(1 << 40)
            jobs.append(lambda profile=profile, n=n, tags=tags, s=s: srv(ctx, aspects, profile, s, n * (2 if ctx.thorough else 1), tags))
    return jobs

def chaos(ctx, aspects, n, tags=''):
    """clients at once, on servers whose goroutines are held up at random statements"""
    jobs = []
    for i in range(8 if ctx.thorough else 2):
        s = ctx.rng('chaos%s%d' % (tags, i)).randrange(1 << 40)
        jobs.append(lambda s=s: srv(ctx, aspects, 'parallel', s, n * (2 if ctx.thorough else 1), tags, variant='yield', chaos=1))
    return jobs

def publishing(ctx, aspects):
    jobs = []
    for i in range(8 if ctx.thorough else 2):
        s = ctx.rng('publish%d' % i).randrange(1 << 40)
        jobs.append(lambda s=s: srv(ctx, aspects, 'publish', s, 60 if ctx.thorough else 25, variant='yield'))
        jobs.append(lambda s=s: srv(ctx, aspects, 'publish', s, 0, variant='yield', ops=400 if ctx.thorough else 150))
    return jobs

def srv_model(ctx, aspects, backup=False, tags=''):
    """the small models of the database part, through the servers' sockets"""
    def one(name, *a):
        f = ctx.model_script(name, 'TrackerMC', mc_consts(*a), cfgrec(expiry=a[3], numdef=3, numlim=5), INV, PROP)
        srv(ctx, aspects, 'script', 0, 0, tags, script=f)
    if backup:
        return [lambda: one('servers: 1 torrent, 1 peer, backups', ['h1'], ['p1'], 'MCVals', 1, [2], True)]
    jobs = [lambda: one('servers: 1 torrent, 2 peers', ['h1'], ['p1', 'p2'], 'MCVals', 1, [2], False)]
    if ctx.thorough:
        jobs.append(lambda: one('servers: 1 torrent, 2 peers', ['h1'], ['p1', 'p2'], 'MCVals', 2, [1, 2], False))
        jobs.append(lambda: one('servers: 2 torrents, 1 peer', ['h1', 'h2'], ['p1'], 'MCVals', 1, [1], False))
        jobs.append(lambda: one('servers: 1 torrent, 2 peers, backups', ['h1'], ['p1', 'p2'], 'MCVals1', 1, [2], True))
    return jobs

def conn_model(ctx, aspects):
    """every transition of small models of the connections, through the UDP server"""
    def one(name, srcs, steps, save):
        f = ctx.model_script(name, 'ConnMC', ['Dict <- MCDict', 'Srcs <- ' + srcs, 'Steps = ' + steps, 'Expiry = 2', 'TrimEvery = 1',
                                              'WithSave = ' + save], cfgrec(connexpiry=2, conntrim=1), ['C10', 'C11', 'Foreigners'], ['C11b'])
        srv(ctx, aspects, 'script', 0, 0, script=f)
    jobs = [lambda: one('connections: one source, saves', 'S1', '{1, 2, 4}', 'TRUE'),
            lambda: one('connections: two sockets of one address', 'S2p', '{1, 2, 4}', 'FALSE'),
            lambda: one('connections: two addresses', 'S2', '{2, 4}', 'FALSE'),
            lambda: one('connections: IPv4 and IPv6', 'S2v', '{2, 4}', 'FALSE')]
    if ctx.thorough:
        jobs.append(lambda: one('connections: two sockets, saves', 'S2p', '{2, 4}', 'TRUE'))
        jobs.append(lambda: one('connections: three sources', 'S3', '{2, 4}', 'FALSE'))
    return jobs

def wire(ctx):
    """lemmas on the decoders the specification reads requests and replies with"""
    def one():
        ctx.mc('WireMC', [], spec='Spec')
    return [one]

SRVALL = {'udp', 'gate', 'refuse', 'interval', 'counts', 'lists', 'family', 'validate', 'bencode', 'form', 'scrape', 'forward', 'route', 'statistics',
          'files', 'closed', 'stall', 'members', 'status', 'metrics', 'hashes', 'conns', 'ctr', 'gauges', 'backup', 'restart'}

def c10(ctx):
    a = {'gate', 'members', 'conns'}
    ctx.parallel(conn_model(ctx, a) + srv_random(ctx, a, ('conn', 8), ('udp', 4), ('uodd', 3)) + srv_random(ctx, a, ('many', 1), k=2 if ctx.thorough else 1))
    return 'model_checking', [NOTE_SRV]

def reconnecting(ctx, a, n):
    return [lambda i=i: srv(ctx, a, 'reconnect', ctx.rng('reconnect%d' % i).randrange(1 << 40), n, variant='yield') for i in range(6 if ctx.thorough else 1)]

def c11(ctx):
    a = {'gate', 'conns', 'restart'}
    ctx.parallel(reconnecting(ctx, a, 8) + conn_model(ctx, a) + srv_random(ctx, a, ('conn', 8), ('restart', 8), ('restart', 8)) + srv_random(ctx, a, ('many', 1), k=2 if ctx.thorough else 1))
    return 'model_checking', [NOTE_SRV]

def c12(ctx):
    a = {'udp', 'gate', 'counts', 'interval', 'lists'}
    ctx.parallel(wire(ctx) + srv_model(ctx, a) + srv_random(ctx, a, ('udp', 8), ('udp', 8), ('uodd', 3), ('default', 5)) + srv_random(ctx, a, ('huge', 1), k=1))
    return 'model_checking', [NOTE_SRV]

def c13(ctx):
    a = {'refuse', 'members', 'status', 'udp'}
    ctx.parallel(wire(ctx) + srv_random(ctx, a, ('uodd', 5), ('uodd', 5), ('uodd', 5), ('udp', 5)))
    return 'model_checking', [NOTE_SRV]

def c14(ctx):
    a = SRVALL - {'metrics', 'ctr', 'conns', 'hashes', 'gauges'}
    k = ctx.thorough
    ctx.parallel(srv_random(ctx, a, ('parallel', 3), ('parallel', 3), ('parallel', 3), ('parallel', 3, 'heroku'), ('hodd', 4), ('uodd', 2)) + chaos(ctx, a, 3))
    return 'model_checking', [NOTE_SRV, 'parallel clients have torrents and peers of their own, so that each is judged alone']

def c15(ctx):
    a = {'route', 'validate', 'scrape', 'members', 'status'}
    ctx.parallel(wire(ctx) + srv_random(ctx, a, ('hodd', 5), ('hodd', 5), ('hodd', 5), ('http', 5)))
    return 'model_checking', [NOTE_SRV]

def c16(ctx):
    a = {'validate', 'form', 'members', 'status', 'lists'}
    ctx.parallel(srv_model(ctx, a) + srv_random(ctx, a, ('http', 6), ('http', 6), ('hodd', 5), ('hodd', 5)))
    return 'model_checking', [NOTE_SRV]

def c17(ctx):
    a = {'bencode', 'scrape', 'counts', 'validate'}
    ctx.parallel(wire(ctx) + srv_model(ctx, a) + srv_random(ctx, a, ('http', 6), ('http', 6), ('hodd', 4)) + srv_random(ctx, a, ('huge', 1), k=1))
    return 'model_checking', [NOTE_SRV]

def c18(ctx):
    a = {'members', 'family', 'forward'}
    ctx.parallel(srv_random(ctx, a, ('http', 5, 'heroku'), ('default', 6, 'heroku'), ('default', 6), ('udp', 5), ('http', 5), ('hodd', 3, 'heroku')))
    return 'model_checking', [NOTE_SRV]

def c20(ctx):
    a = {'closed', 'udp', 'stall', 'route', 'statistics'}
    race = [lambda i=i: srv(ctx, a, 'parallel', i, 1, race=True, ops=400) for i in range(8 if ctx.thorough else 2)]
    ctx.parallel(race + srv_random(ctx, a, ('stall', 1), ('hodd', 5), ('uodd', 4), ('parallel', 3), ('parallel', 3), ('hodd', 3, 'heroku')) + chaos(ctx, a, 3))
    return 'model_checking', [NOTE_SRV]

def c23(ctx):
    a = {'interval'}
    ctx.parallel(srv_random(ctx, a, ('spread', 1), ('default', 6), ('default', 6)))
    return 'model_checking', [NOTE_SRV]

def c24(ctx):
    a = {'ctr', 'gauges'}
    ctx.parallel(srv_random(ctx, a, ('default', 6), ('uodd', 4), ('hodd', 4), ('http', 4), ('restart', 4), ('udp', 5)) + publishing(ctx, a))
    return 'model_checking', [NOTE_SRV]

# ---------------------------------------------------------------- overlapping operations
NOTE_CONC = ('a deterministic scheduler switches between threads at every lock operation and statement (preemption-bounded exhaustive, then random); '
             'real threads besides; the order of map iteration is Go\'s')

def conc(ctx, aspects, mode, variant='yield', tags='', race=False, **kw):
    t = ctx.drive('conc', dict(kw, mode=mode), variant=variant, tags=tags, race=race, timeout=450 if ctx.thorough else 200)
    m = re.search(r'runs=(\d+) distinct=(\d+) stuck=(\d+)', t.out)
    if m:
        ctx.count('schedules', int(m.group(1)))
        ctx.count('distinct_histories', int(m.group(2)))
        ctx.count('schedules_not_followed', int(m.group(3)))
    m = re.search(r'pairs=(\d+) exhausted=(\d+) bound=(\d+)', t.out)
    if m:
        ctx.count('pairs_of_threads', int(m.group(1)))
        ctx.count('pairs_exhausted_at_preemption_bound_%s' % m.group(3), int(m.group(2)))
    return ctx.validate(t, 'ConcTrace', aspects, TRACKER)

def conc_jobs(ctx, aspects, only='', tags=''):
    jobs = []
    th = ctx.thorough
    x = dict(only=only) if only else {}
    parts = 8 if th else 4 if not only else 2
    for k in range(parts):
        jobs.append(lambda k=k: conc(ctx, aspects, 'pairs', part=k, parts=parts, bound=2, max=20000 if th else 250 if not only else 700, secs=220 if th else 30, tags=tags, **x))
    for k in range(8 if th else 2):
        s = ctx.rng('conc%s%d' % (only, k)).randrange(1 << 40)
        jobs.append(lambda s=s: conc(ctx, aspects, 'random', seed=s, n=1000 if th else 300, per=20, tags=tags, secs=200, **x))
    s = ctx.rng('stress' + only).randrange(1 << 40)
    jobs.append(lambda: conc(ctx, aspects, 'stress', variant='plain', seed=s, n=600 if th else 100, per=20, tags=tags, **x))
    if th:
        jobs.append(lambda: conc(ctx, aspects, 'stress', variant='plain', race=True, seed=s + 1, n=200, per=20, tags=tags, **x))
    return jobs

def c03(ctx):
    ctx.parallel(conc_jobs(ctx, {'lin'}))
    return 'model_checking', [NOTE_CONC]

def c08(ctx):
    ctx.parallel(conc_jobs(ctx, {'backup'}, only='backup'))
    return 'model_checking', [NOTE_CONC]

def c07(ctx):
    a = {'members', 'counts', 'metrics', 'backup', 'restart', 'status'}
    k = 4 if ctx.thorough else 2
    jobs = db_model(ctx, a, backup=True) + srv_model(ctx, a, backup=True) + db_random(ctx, a, ['restart'] * k)
    jobs += srv_random(ctx, a, ('restart', 8), ('restart', 6, 'heroku'))
    jobs.append(lambda: db(ctx, a, 0, 0, 'huge'))
    jobs += proc_jobs(ctx, a | PROC, 'signals', 5, 2)
    ctx.parallel(jobs)
    return 'model_checking', [NOTE_DB, NOTE_SRV, NOTE_PROC]

def c27(ctx):
    a = (SRVALL | {'lin'}) - {'metrics', 'gauges'}
    f = 'fast'
    jobs = db_model(ctx, a, tags=f) + db_model(ctx, a, backup=True, tags=f) + db_random(ctx, a, ['default', 'expiry', 'crowd', 'restart'], tags=f)
    jobs.append(lambda: db(ctx, a, 0, 0, 'huge', tags=f))
    jobs.append(lambda: db(ctx, a, ctx.rng('bigfast').randrange(1 << 40), 5, world='big', tags=f))
    jobs += srv_model(ctx, a, tags=f)
    jobs += srv_random(ctx, a, *[(p, n, f) for p, n in (('default', 5), ('udp', 4), ('uodd', 3), ('conn', 4), ('http', 4), ('hodd', 4), ('restart', 4), ('parallel', 2), ('default', 3))][:],
                       k=4 if ctx.thorough else 1)
    jobs += conc_jobs(ctx, a, tags=f)
    ctx.parallel(jobs)
    return 'model_checking', [NOTE_DB, NOTE_SRV, NOTE_CONC]

# ---------------------------------------------------------------- the process
NOTE_PROC = ('the real binary in a scratch home, on loopback, with the real clock; its files are watched to tell when a save has ended; '
             'requests and signals go to it one at a time, some requests fall into a running save')

def proc(ctx, aspects, profile, seed, n, tags='', module='DaemonTrace', **kw):
    a = dict(seed=seed, n=n, profile=profile, repo=ctx.repo, bin=ctx.build('bin', tags))
    if 'heroku' in tags:
        a['heroku'] = 1
    a.update(kw)
    t = ctx.drive('proc', a, timeout=500)
    for k, v in re.findall(r'(\w+)=(\d+)', t.out):
        if k != 'events':
            ctx.count(k, int(v))
    return ctx.validate(t, module, aspects, TRACKER)

def proc_jobs(ctx, aspects, profile, n, k, tags='', **kw):
    jobs = []
    for i in range(k * (3 if ctx.thorough else 1)):
        s = ctx.rng('proc%s%s%d' % (profile, tags, i)).randrange(1 << 40)
        jobs.append(lambda s=s: proc(ctx, aspects, profile, s, n * (3 if ctx.thorough else 1), tags, **kw))
    return jobs

PROC = {'start', 'signals', 'periodic', 'gate', 'counts', 'lists', 'udp', 'validate', 'bencode', 'closed'}

def c09(ctx):
    a = {'start', 'counts', 'lists', 'signals'}
    parts = 7
    jobs = []
    for i in range(parts):
        s = ctx.rng('crash%d' % i).randrange(1 << 40)
        jobs.append(lambda i=i, s=s: proc(ctx, a, 'crash', s, 0 if ctx.thorough else 14, part=i, parts=parts))
    ctx.parallel(jobs)
    return 'fault_enumeration', [NOTE_PROC, 'kills and failures are injected with strace at each file system call of a save, writes cut short by a file size limit']

def c19(ctx):
    a = PROC
    ctx.parallel(proc_jobs(ctx, a, 'signals', 8, 6) + proc_jobs(ctx, a, 'signals', 4, 1, tags='heroku'))
    return 'model_checking', [NOTE_PROC]

def c26(ctx):
    a = {'info', 'files', 'route', 'start', 'counts'}
    ctx.parallel(proc_jobs(ctx, a, 'info', 6, 4) + proc_jobs(ctx, a, 'info', 3, 1, tags='heroku') + srv_random(ctx, {'files', 'route'}, ('hodd', 5), ('hodd', 5)))
    return 'model_checking', [NOTE_PROC, NOTE_SRV]

NOTE_CFG = ('the real configuration package in a process of its own per load, with a scratch home and current directory; '
            'the defaults are read from the embedded file')

def cfg(ctx, aspects, seed, n):
    t = ctx.drive('cfg', dict(seed=seed, n=n, repo=ctx.repo))
    return ctx.validate(t, 'ConfigTrace', aspects)

def c22(ctx):
    a = {'config', 'file'}
    jobs = []
    for i in range(12 if ctx.thorough else 4):
        s = ctx.rng('cfg%d' % i).randrange(1 << 40)
        jobs.append(lambda s=s: cfg(ctx, a, s, 1500 if ctx.thorough else 150))
    ctx.parallel(jobs)
    return 'model_checking', [NOTE_CFG]

NOTE_CTL = ('the real binary, run as an unprivileged user in scratch homes, so that signals can reach nothing but the stubs started for it; '
            'stubs stand in for daemons that obey, dawdle or refuse, and for things that answer on the ports')
ALLREC = ['absent', 'empty', 'junk', 'zero', 'minus', 'group', 'dead', 's', 'd']

def ctl(ctx, name, udp, http, us, hs, kinds, recs, uid, limit=0):
    q = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    f = ctx.model_script('controller: ' + name, 'ControllerMC',
                         ['Udps = {%s}' % str(udp).upper(), 'Https = {"%s"}' % http, 'Us = ' + q(us), 'Hs = ' + q(hs), 'Kinds = ' + q(kinds), 'Recs = ' + q(recs)],
                         None, ['OneDaemon'], ['Others', 'Births', 'Cleared', 'StopClears'], maxlen=30, reset=dict(e='reset', udp=udp, http=http))
    a = dict(seed=ctx.rng('ctl' + name).randrange(1 << 40), script=f, bin=ctx.build('bin'), uid=uid, ports=10000 + 3000 * (uid // 1000 - 61))
    if limit:
        a['max'] = limit
    t = ctx.drive('ctl', a, timeout=600)
    return ctx.validate(t, 'ControllerTrace', {'controller'})

def c21(ctx):
    th = ctx.thorough
    off, some, every = ['off'], ['off', 'ok', 'bad'], ['off', 'ok', 'bad', 'silent']
    kinds = ['prompt', 'slow', 'stubborn']
    jobs = [lambda: ctl(ctx, 'records and stubs', True, 'enabled', off, off, kinds, ALLREC, 61000),
            lambda: ctl(ctx, 'answers on both ports', True, 'enabled', every if th else some, every if th else some, ['prompt'], ['empty', 'dead', 's'], 62000),
            lambda: ctl(ctx, 'UDP only', True, 'disabled', every, ['off', 'ok'], ['slow'], ['empty', 's', 'd'], 63000, 0 if th else 12),
            lambda: ctl(ctx, 'HTTP only', False, 'enabled', ['off', 'ok'], every, ['slow'], ['empty', 's', 'd'], 64000, 0 if th else 12),
            lambda: ctl(ctx, 'info mode only', False, 'info', ['off'], ['off'], ['prompt'], ['empty', 's', 'd'], 65000)]
    ctx.parallel(jobs, 3)
    return 'model_checking', [NOTE_CTL]

NOTE_PG = ('a stand-in for Postgres in the driver speaks its wire protocol, understands the usual statements on one table, admits five connections '
           'and refuses, fails or hangs up when told to; its clock is the tracker\'s virtual one')

def pg(ctx, aspects, seed, n):
    t = ctx.drive('pg', dict(seed=seed, n=n), timeout=400)
    return ctx.validate(t, 'PgTrace', aspects, TRACKER, spec='TSpecPg')

def c25(ctx):
    a = {'pg', 'counts', 'members', 'metrics'}
    jobs = []
    for i in range(14 if ctx.thorough else 7):
        s = ctx.rng('pg%d' % i).randrange(1 << 40)
        jobs.append(lambda s=s: pg(ctx, a, s, 150 if ctx.thorough else 25))
    ctx.parallel(jobs)
    return 'model_checking', [NOTE_PG]

NOTE_BIND = ('the real binary in a network namespace of the driver\'s own with two dozen addresses (loopback ones alone where that is not possible), '
             'its sockets read from /proc and tried on every address')

def bind(ctx, seed, n, part, parts, tags=''):
    a = dict(seed=seed, n=n, profile='bind', repo=ctx.repo, bin=ctx.build('bin', tags), part=part, parts=parts, off=ctx.rng('off' + tags).randrange(1 << 20))
    if 'heroku' in tags:
        a['heroku'] = 1
    t = ctx.drive('proc', a, timeout=700)
    return ctx.validate(t, 'ListenTrace', {'listen'})

def c28(ctx):
    th = ctx.thorough
    jobs = [lambda: ctx.mc('ListenMC', [], ['Only', 'Named1', 'Named2', 'Off', 'AllOrNothing'])]
    for tags, parts, n in (('', 7, 900), ('heroku', 7, 900 if th else 8)):
        for r in range(4 if th else 1):
            for i in range(parts):
                s = ctx.rng('bind%s%d/%d' % (tags, r, i)).randrange(1 << 40)
                jobs.append(lambda i=i, s=s, n=n, parts=parts, tags=tags: bind(ctx, s, n, i, parts, tags))
    ctx.parallel(jobs)
    return 'model_checking', [NOTE_BIND]

NOTE_LIB = 'the exported functions of the packages are called in a process of the driver\'s own; messages are read field by field with reflection'

def lib(ctx, aspects, profile, seed, n, par=1, race=False):
    t = ctx.drive('lib', dict(seed=seed, n=n, profile=profile, par=par), race=race)
    return ctx.validate(t, 'LibTrace', aspects)

def lib_jobs(ctx, aspects, profile, n):
    return [lambda i=i, s=ctx.rng('%s%d' % (profile, i)).randrange(1 << 40): lib(ctx, aspects, profile, s, n // 4 if i % 3 == 0 else n, 4 if i % 3 == 0 else 1, i % 6 == 0)
            for i in range(42 if ctx.thorough else 7)]

def c29(ctx):
    ctx.parallel(wire(ctx) + lib_jobs(ctx, {'codec'}, 'codec', 3000))
    return 'model_checking', [NOTE_LIB]

def c30(ctx):
    ctx.parallel(wire(ctx) + lib_jobs(ctx, {'bencoding'}, 'bencode', 800))
    return 'model_checking', [NOTE_LIB]

def c31(ctx):
    a = PROC | {'refused', 'info'}
    ctx.parallel(proc_jobs(ctx, a, 'refuse', 6, 7) + proc_jobs(ctx, a, 'refuse', 4, 1, tags='heroku'))
    return 'model_checking', [NOTE_PROC, 'the sockets of a start that fails are read off its system calls with strace']

CHECKS = dict(C31=c31, C28=c28, C29=c29, C30=c30, C25=c25, C21=c21, C22=c22, C09=c09, C19=c19, C26=c26, C03=c03, C07=c07, C27=c27, C08=c08, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C20=c20, C23=c23, C24=c24,
              C01=c01, C02=c02, C04=c04, C05=c05, C06=c06)

_T = 'TLA+ specification, TLC: '
_DBN = ('Every transition of small models of the specification and seeded random histories are executed on the real code and the '
        'recorded traces validated by TLC; exhaustive for the small models, sampled beyond. Trusts TLC, the trace recorder and the virtual-clock build.')
ABOUT = {p: ('model_checking', _T + 'model-generated and random histories replayed into the real database, recorded traces validated', _DBN)
         for p in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C27')}
ABOUT.update({p: ('model_checking', _T + 'linearizability of recorded histories from systematically scheduled runs of the real code',
                  'Pairs of threads over a menu of operations and prior states are run under every schedule within a preemption bound, larger '
                  'random programs under random schedules and on real threads; TLC searches for a linearization of each distinct history.')
              for p in ('C03', 'C08')})
_PRN = ('Random lives of the real process between starts, requests, signals, kills and cut-short saves, each observed through its sockets and '
        'files; TLC validates the recorded traces. Sampled, apart from the calls of a save, which are enumerated.')
ABOUT.update({p: (lv, _T + what, _PRN) for p, lv, what in (
    ('C09', 'fault_enumeration', 'crash-consistency specification; traces of the real process killed or failed at each call of a save'),
    ('C19', 'model_checking', 'specification of the process and its files; traces of the real process under signals validated'),
    ('C26', 'model_checking', 'specification of the web server; traces of the real process in info mode validated'))})
_SRVN = ('Datagrams and requests generated from small models and at random, valid and not, go to the real servers over loopback; TLC decodes the '
         'bytes, decides what each must have done and judges every reply and the database behind it. Sampled beyond the small models.')
ABOUT.update({p: ('model_checking', _T + 'wire-level specification, recorded exchanges with the real servers validated', _SRVN)
              for p in ('C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C20', 'C23', 'C24')})

ABOUT['C22'] = ('model_checking', _T + 'specification of where each setting comes from; loads of the real configuration validated',
                'Each setting alone from each source, then random mixtures of environment, files and $PORT. Sampled.')

ABOUT['C21'] = ('model_checking', _T + 'every transition of models of the controller executed with the real binary, recorded traces validated',
                'Exhaustive for one stub, one daemon, a bystander and the listed records and port behaviours (quick samples some walks with silent ports).')

ABOUT['C28'] = ('model_checking', _T + 'specification of the sockets a start gets; starts of the real process under every combination of settings and held ports validated',
                'Every combination of server modes, kinds of address and held port, with random addresses of each kind.')
ABOUT['C29'] = ('model_checking', _T + 'layout specification of the UDP messages; recorded calls of the real codec validated',
                'Random field values and random bytes of every telling length, both ways. Sampled.')
ABOUT['C30'] = ('model_checking', _T + 'specification of a dictionary under construction; what the real encoder wrote is decoded and compared',
                'Random sequences of typed and untyped entries, nested, refused and reset. Sampled.')

ABOUT['C31'] = ('model_checking', _T + 'specification of the process and its files; starts of the real process under unusable settings and damaged backups validated',
                'Random bad values for every setting, malformed files, and backups cut or continued at random points, between proper starts that show nothing was lost. Sampled.')

ABOUT['C25'] = ('model_checking', _T + 'specification of the table of saved databases; random histories of saves, foreign rows, faults and starts validated',
                'The real code against a stand-in server over loopback; sampled histories.')
