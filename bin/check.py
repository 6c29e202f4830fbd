#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property on /repo's current tree.

Every verdict comes from TLC: traces recorded from the real code are validated
against the specification in spec/; the driver and this script judge nothing.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: no answer (build or harness failure).
"""
import concurrent.futures, fcntl, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import walks as walks_mod

# what the network of the server drivers has besides 127/8 and ::1 (harness/srv.go)
ADDRS = ['10.1.2.3/32', '192.168.7.7/32', '172.16.5.5/32', '169.254.3.3/32', '100.64.9.9/32', '8.8.4.4/32', '198.18.0.9/32', '1.0.0.255/32', '223.255.255.254/32',
         '2001:db8::9/128', 'fd00::9/128', 'fe80::9/128', '64:ff9b::102:304/128', '2002:a01:203::1/128', '::102:304/128', '2001::5:1/128',
         '2001:db8:1:2:3:4:5:6/128']

class NoAnswer(Exception):
    pass

class Stopped(Exception):
    """a violation has been found: the rest need not be explored"""

def goenv():
    e = {k: v for k, v in os.environ.items() if not k.startswith('TRAKX_') and k != 'PORT'}
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', LANG='C.UTF-8',
             HOME=os.environ.get('HOME', '/root'))
    e['GOCACHE'] = os.environ.get('GOCACHE', '/root/.cache/go-build')
    if '/usr/local/go/bin' not in e.get('PATH', '') :
        e['PATH'] = e.get('PATH', '') + ':/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin'
    return e

def known_findings(pid):
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    for l in open(kf) if os.path.exists(kf) else []:
        m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            known.append((m.group(2), m.group(3)))
    return known

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.repo = REPO
        self.work = tempfile.mkdtemp(prefix='vf-%s-' % pid, dir='/tmp')
        os.chmod(self.work, 0o711)
        self.lock = threading.Lock()
        self.builds, self.blocks = {}, {}
        self.states = self.transitions = self.traces = self.events = 0
        self.mcs, self.samples, self.violations, self.notes, self.counts = [], [], [], [], {}
        self.n = 0
        self.net = None
        self.stop = threading.Event()
        self.running = set()
        self.known = known_findings(pid)
        self.t0 = time.time()
        self.thorough = tier == 'thorough'

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, '%03d-%s' % (self.n, name))

    def rng(self, tag):
        return random.Random('%s/%s/%s' % (self.seed, self.pid, tag))

    # ---------------------------------------------------------------- builds
    def build(self, variant='plain', tags='', race=False):
        """The driver overlaid into /repo's current tree: plain, yield (scheduling
        points between statements) or bin (the tracker itself, untouched)."""
        key = (variant, tags, race)
        with self.lock:
            if key not in self.blocks:
                self.blocks[key] = threading.Lock()
            lk = self.blocks[key]
        with lk:
            if key in self.builds:
                return self.builds[key]
            out = os.path.join(self.work, 'b-%s-%s-%s' % (variant, tags.replace(',', '_') or 'std', 'race' if race else 'x'))
            if variant == 'bin':
                cmd = ['go', 'build', '-o', out]
                if tags:
                    cmd += ['-tags', tags]
                self.sh(cmd + ['.'], cwd=REPO, what='building trakx')
            else:
                instr = self.instr()
                ov = out + '.ov'
                os.makedirs(ov, exist_ok=True)
                a = [instr, '-repo', REPO, '-out', ov, '-shim', os.path.join(VERIF, 'shim'),
                     '-driver', os.path.join(VERIF, 'harness'), '-vtime', 'tracker', '-notime', 'tracker/http',
                     '-vsync', 'tracker,pools']
                if variant == 'yield':
                    a += ['-yield', 'tracker/storage/map,pools,tracker/stats,tracker/udp,tracker/http']
                self.sh(a, what='instrumenting')
                cmd = ['go', 'build', '-overlay', os.path.join(ov, 'overlay.json'), '-o', out]
                if tags:
                    cmd += ['-tags', tags]
                if race:
                    cmd += ['-race']
                self.sh(cmd + ['./zz_verif/driver'], cwd=REPO, what='building the driver')
            self.builds[key] = out
            return out

    def instr(self):
        out = os.path.join(self.work, 'instr')
        with self.lock:
            if not os.path.exists(out):
                self.sh(['go', 'build', '-o', out, '.'], cwd=os.path.join(VERIF, 'tools/instr'), what='building instr')
        return out

    def sh(self, cmd, cwd=None, what='', timeout=600):
        p = subprocess.run(cmd, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if p.returncode:
            raise NoAnswer('%s failed: %s' % (what, p.stdout.decode(errors='replace')[-3000:]))
        return p.stdout.decode(errors='replace')

    # ---------------------------------------------------------------- driver
    def drive(self, cmd, args=None, variant='plain', tags='', race=False, timeout=150, env=None, name=None):
        exe = self.build(variant, tags, race)
        base = self.path(name or cmd)
        trace, home = base + '.ndjson', base + '.home'
        os.makedirs(home)
        a = [exe, cmd, '-dir=' + os.path.join(home, 'd'), '-out=' + trace]
        a += ['-%s=%s' % kv for kv in (args or {}).items()]
        if cmd in ('srv', 'proc', 'pg') and self.netns():
            a = self.netns() + a
        e = goenv()
        e.update(HOME=home, TRAKX_LOGLEVEL='error', GORACE='halt_on_error=1 exitcode=66')
        e.update(env or {})
        with open(base + '.out', 'wb') as o:
            with self.lock:
                if self.stop.is_set():
                    raise Stopped
                p = subprocess.Popen(a, cwd=home, env=e, stdout=o, stderr=subprocess.STDOUT, start_new_session=True)
                self.running.add(p.pid)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGQUIT)
                try:
                    p.wait(5)
                except subprocess.TimeoutExpired:
                    pass
                rc = 'hang'
            with self.lock:
                self.running.discard(p.pid)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
        if self.stop.is_set():
            raise Stopped
        out = open(base + '.out', errors='replace').read()
        if rc == 4 or (rc != 0 and not os.path.exists(trace)):
            raise NoAnswer('driver %s: %s' % (' '.join(a[1:]), out[-3000:]))
        if rc != 0:
            # the tracker's code ended or blocked the process: an event without an action
            what = 'hang' if rc == 'hang' else 'race' if rc == 66 else 'crash'
            m = re.search(r'goroutine \d+ \[running[^\n]*\n((?:panic|runtime)[^\n]*\n\t[^\n]*\n)*main\.', out)
            if what == 'crash' and m:
                raise NoAnswer('the driver itself failed: ' + out[-3000:])
            with open(trace, 'ab') as f:
                f.seek(0, 2)
                f.write(b'\n' if not self.ends_nl(trace) else b'')
                f.write((json.dumps({'e': what, 'rc': rc, 'out': out[-2000:]}) + '\n').encode())
        shutil.rmtree(home, ignore_errors=True)
        return Trace(trace, ' '.join(a[1:]), out)

    def netns(self):
        """a network of its own, with more addresses than the loopback ones, where that is possible"""
        with self.lock:
            if self.net is None:
                sh = 'ip link set lo up; for a in %s; do ip addr add $a dev lo; done; exec "$@"' % ' '.join(ADDRS)
                self.net = ['unshare', '-Urn', 'sh', '-c', sh, 'sh']
                try:
                    ok = subprocess.run(self.net + ['ip', 'addr', 'show', 'lo'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
                    if ok.returncode or b'10.1.2.3' not in ok.stdout:
                        self.net = []
                except (OSError, subprocess.TimeoutExpired):
                    self.net = []
            return self.net

    def reap(self):
        """daemons whose driver was ended before it could end them: they run from this run's own directory"""
        for p in glob.glob('/proc/[0-9]*'):
            try:
                if os.readlink(p + '/exe').startswith(self.work + '/'):
                    os.kill(int(p[6:]), signal.SIGKILL)
            except OSError:
                pass

    @staticmethod
    def ends_nl(p):
        with open(p, 'rb') as f:
            f.seek(0, 2)
            if f.tell() == 0:
                return True
            f.seek(-1, 2)
            return f.read(1) == b'\n'

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=800, xmx='3g'):
        if self.stop.is_set():
            raise Stopped
        base = self.path('tlc')
        os.makedirs(base)
        with open(base + '/m.cfg', 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + xmx,
               '-Djava.io.tmpdir=' + base, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
               '-metadir', base + '/md', '-config', base + '/m.cfg', *extra, module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'spec'), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise NoAnswer('TLC timed out on ' + module)
        out = p.stdout.decode(errors='replace')
        shutil.rmtree(base, ignore_errors=True)
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct', out)
        gen, dist = (int(x.replace(',', '')) for x in m.groups()) if m else (0, 0)
        return p.returncode, out, gen, dist

    def mc(self, module, consts, invariants=(), properties=(), spec='MSpec', dump=None, workers=2, expect=True, extra=(), constraint='', deadlock=False):
        """Model check the specification itself; a failure here says nothing about the code."""
        cfg = 'SPECIFICATION %s\n' % spec + ''.join('CONSTANT %s\n' % c for c in consts)
        cfg += ''.join('INVARIANT %s\n' % i for i in invariants) + ''.join('PROPERTY %s\n' % p for p in properties)
        cfg += constraint
        cfg += 'CHECK_DEADLOCK %s\n' % ('TRUE' if deadlock else 'FALSE')
        ex = list(extra) + (['-dump', 'dot', dump] if dump else [])
        rc, out, gen, dist = self.tlc(module, cfg, workers=1 if dump else workers, extra=ex)
        ok = rc == 0 and 'No error has been found' in out
        if ok != expect:
            raise NoAnswer('specification %s: %s\n%s' % (module, 'fails its own properties' if expect else 'does not show the fault', out[-3000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.mcs.append(dict(module=module, constants=list(consts), invariants=list(invariants) + list(properties),
                                 states=dist, transitions=gen))
        return out

    def validate(self, tr, module, aspects, consts=(), timeout=800, spec='TSpec'):
        """Is the recorded trace a behaviour of the specification?"""
        if self.stop.is_set():
            raise Stopped
        cfg = 'SPECIFICATION %s\n' % spec + ''.join('CONSTANT %s\n' % c for c in consts)
        cfg += 'CONSTANT Aspects = {%s}\n' % ', '.join('"%s"' % a for a in sorted(aspects))
        cfg += 'POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'
        rc, out, gen, dist = self.tlc(module, cfg, env={'TRACE': tr.path}, timeout=timeout)
        m = re.search(r'<<"(ACCEPTED|REJECTED)", (\d+)>>', out)
        if not m:
            raise NoAnswer('TLC gave no verdict on a trace of `%s`: %s' % (tr.cmd, out[-3000:]))
        lines = sum(1 for _ in open(tr.path))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += 1
            self.events += lines
        if m.group(1) == 'ACCEPTED' and rc == 0:
            self.sample(tr)
            return True
        self.reject(tr, module, aspects, int(m.group(2)))
        return False

    def sample(self, tr):
        with self.lock:
            if len(self.samples) < 4:
                with open(tr.path) as f:
                    ls = f.read(200000).split('\n')
                r = self.rng('sample')
                k = r.randrange(max(1, len(ls) - 6)) + 1
                self.samples.append(dict(command=tr.cmd, events=[l[:400] for l in ls[k:k + 4] if l]))

    def reject(self, tr, module, aspects, at):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        with open(tr.path) as f:
            ls = f.read().split('\n')
        seg = 0
        for i in range(min(at, len(ls)) - 1, 0, -1):
            if '"e":"reset"' in ls[i] or '"e": "reset"' in ls[i]:
                seg = i
                break
        ev = ls[at - 1] if at - 1 < len(ls) else '(end)'
        with self.lock:
            n = len(self.violations)
            p = os.path.join(d, '%s-%d.ndjson' % (self.pid, n))
            with open(p, 'w') as f:
                f.write('\n'.join([ls[0]] + (ls[seg:at] if seg else ls[1:at])) + '\n')
            with open(p + '.txt', 'w') as f:
                f.write('property: %s\ndriver: %s\nspec: %s with Aspects %s\n' % (self.pid, tr.cmd, module, sorted(aspects)))
                f.write('The last event of the trace beside this file is not possible in the specification:\n%s\n' % ev[:4000])
                f.write('Re-check: TRACE=<file> java -cp %s tlc2.TLC -config <SPECIFICATION TSpec, the Aspects above> %s.tla\n' % (JARS, module))
            self.violations.append((p, ev))
            if not any(k in ev for k, _ in self.known):
                self.stop.set()
                for g in self.running:
                    try:
                        os.killpg(g, signal.SIGKILL)
                    except ProcessLookupError:
                        pass

    # ---------------------------------------------------------------- model-generated scripts
    def model_script(self, name, module, consts, cfgrec, invariants=(), properties=(), maxlen=400, reset=None):
        dot = self.path('graph.dot')
        self.mc(module, consts, invariants, properties, dump=dot)
        ws, st = walks_mod.walks(dot, maxlen)
        os.remove(dot)
        if st['uncovered']:
            raise NoAnswer('walks leave transitions uncovered')
        f = self.path('script.ndjson')
        with open(f, 'w') as o:
            for w in ws:
                o.write(json.dumps(reset or {'e': 'reset', 'cfg': cfgrec}) + '\n')
                for a in w:
                    o.write(a + '\n')
        with self.lock:
            self.notes.append(dict(model=name, **st))
        return f

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def parallel(self, jobs, width=7):
        err = None
        with concurrent.futures.ThreadPoolExecutor(width) as ex:
            fs = [ex.submit(j) for j in jobs]
            for f in fs:
                try:
                    f.result()
                except Stopped:
                    pass
                except NoAnswer as e:
                    err = err or e
                except subprocess.TimeoutExpired as e:
                    err = err or NoAnswer(str(e))
        if err and not self.violations:
            raise err

class Trace:
    def __init__(self, path, cmd, out):
        self.path, self.cmd, self.out = path, cmd, out

DEFCFG = dict(expiry=2400, trim=0, numdef=75, numlim=200, base=1800, fuzz=300, connexpiry=1800, conntrim=600,
              validate=True, backup=0, heroku=False)
def cfgrec(**k):
    return dict(DEFCFG, **k)



import checks

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid == 'setup':
        for t in ('java', 'go', 'python3', 'strace'):
            if not shutil.which(t):
                print('missing tool', t)
        return 0
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        for f in glob.glob(os.path.join(VERIF, 'evidence', 'replay', pid + '-*')):
            os.remove(f)
        level, assumptions = checks.CHECKS[pid](ctx)
        cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
                   trace_events=ctx.events, models=ctx.mcs, generated=ctx.notes, samples=ctx.samples, **ctx.counts)
        if level != 'model_checking':
            cov['evaluations'] = ctx.counts.get('shots', 0) + ctx.counts.get('shorts', 0)
            cov['distinct_nontrivial'] = ctx.counts.get('hits', 0) + ctx.counts.get('shorts', 0)
            cov['rule'] = ('one kill or failing call (call kind, its occurrence in the save, error) or file size limit per case; '
                           'non-trivial if it took effect during the save: the kill ended the process or the call was made to fail')
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                           wall_s=round(time.time() - ctx.t0, 1), violations=len(ctx.violations)), f, indent=1)
        known = ctx.known
        rc = 0
        for k, what in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        for p, ev in ctx.violations:
            if any(k in ev for k, _ in known):
                continue
            rc = 1
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  rejected event: %s' % ev[:600])
        if rc == 0:
            print('%s %s: held; %d traces, %d events, %d spec states, %.1fs' %
                  (pid, tier, ctx.traces, ctx.events, ctx.states, time.time() - ctx.t0))
    except NoAnswer as e:
        print('NO ANSWER: %s' % e)
        rc = 2
    finally:
        ctx.reap()
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(ctx.work, ignore_errors=True)
    return rc

if __name__ == '__main__':
    sys.exit(main())
