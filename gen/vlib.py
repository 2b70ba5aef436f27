"""Shared machinery of the checks: build the harness, run jobs in child processes, run TLC,
write evidence, report violations and known findings."""
import json, os, subprocess, sys, time, hashlib, shutil, threading, queue, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NPROC = 8
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print(f'[{time.time() - T0:6.1f}s]', *a, flush=True)


# ------------------------------------------------------------------ building
def cargo_env(flags=True):
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='1.95', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
    e.pop('CARGO_BUILD_TARGET', None)
    if flags:
        e['RUSTFLAGS'] = '--cfg bladeink_verif'
    else:
        e.pop('RUSTFLAGS', None)
    return e


def build(profile='debug', feature=None):
    """build the driver from /repo's working tree; returns the binary"""
    tgt = os.path.join(BUILD, 'stream' if feature else 't')
    env = cargo_env()
    env['CARGO_TARGET_DIR'] = tgt
    cmd = ['cargo', 'build', '--offline', '-q']
    if profile == 'release':
        cmd.append('--release')
    if feature:
        cmd += ['--features', feature]
    p = subprocess.run(cmd, cwd=os.path.join(V, 'harness'), env=env, capture_output=True, text=True)
    if p.returncode:
        print(p.stderr[-3000:])
        raise ToolError('harness build failed')
    src = os.path.join(tgt, profile, 'inkdrv')
    return src


def build_rinklecate():
    env = cargo_env(False)
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'cli')
    p = subprocess.run(['cargo', 'build', '--offline', '-q', '-p', 'rinklecate'], cwd=REPO, env=env, capture_output=True, text=True)
    if p.returncode:
        print(p.stderr[-3000:])
        raise ToolError('rinklecate build failed')
    return os.path.join(BUILD, 'cli', 'debug', 'rinklecate')


# ------------------------------------------------------------------ running jobs
class Worker:
    def __init__(self, binary, env=None):
        self.binary, self.p, self.env = binary, None, env

    def start(self):
        # a story may ask for memory without end: the driver gets 3 GB
        self.p = subprocess.Popen(['sh', '-c', 'ulimit -v 3000000; exec "$0"', self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, bufsize=1 << 16, env=self.env)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.kill()
            except Exception:
                pass
            self.p.wait()
            self.p = None

    def run(self, job, timeout):
        """result dict; {'r':'crash'} when the process died, {'r':'hang'} on timeout"""
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        timer = threading.Timer(timeout, self.p.kill)
        timer.killed = False
        t0 = time.time()
        timer.start()
        try:
            self.p.stdin.write((json.dumps(job) + '\n').encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b''
        finally:
            timer.cancel()
        if not line:
            rc = self.p.wait()
            self.stop()
            if time.time() - t0 >= timeout * .98:
                return {'id': job.get('id'), 'r': 'hang'}
            return {'id': job.get('id'), 'r': 'crash', 'rc': rc}
        try:
            return json.loads(line)
        except ValueError:
            raise ToolError('bad driver output: ' + repr(line[:200]))


def run_jobs(binary, jobs, timeout=20, nproc=NPROC, env=None):
    """run the jobs on nproc child processes; results in order"""
    res = [None] * len(jobs)
    q = queue.Queue()
    for i, j in enumerate(jobs):
        q.put((i, j))
    errs = []
    hung = []

    def loop():
        w = Worker(binary, env)
        try:
            while True:
                try:
                    i, j = q.get_nowait()
                except queue.Empty:
                    return
                # once many have hung there is no doubt left: the others are not waited for as long
                res[i] = w.run(dict(j, id=i), timeout if len(hung) < 8 else min(timeout, 3))
                if isinstance(res[i], dict) and res[i].get('r') == 'hang':
                    hung.append(i)
        except Exception as e:
            errs.append(e)
        finally:
            w.stop()
    ts = [threading.Thread(target=loop) for _ in range(min(nproc, max(1, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


# ------------------------------------------------------------------ TLC
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=8, timeout=600, args=(), xmx='12g', xss='64m', tag=None, spec_dir=None):
    """run TLC on spec/<module>.tla with configuration text cfg"""
    d = os.path.join(BUILD, 'tlc', (tag or module) + f'.{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    cfgp = os.path.join(d, module + '.cfg')
    open(cfgp, 'w').write(cfg)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', f'-Xmx{xmx}', f'-Xss{xss}', '-XX:+UseParallelGC', '-cp', CP, 'tlc2.TLC', '-config', cfgp,
           '-metadir', os.path.join(d, 'states'), '-workers', str(workers), '-noGenerateSpecTE', *args,
           os.path.join(spec_dir or os.path.join(V, 'spec'), module + '.tla')]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=d)
        out, rc = p.stdout, p.returncode
        to = False
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b'').decode() if isinstance(ex.stdout, bytes) else (ex.stdout or '')
        rc, to = -1, True
    r = TlcResult()
    r.out, r.rc, r.timeout, r.secs = out, rc, to, time.time() - t0
    m = re.findall(r'(\d+) states generated, (\d+) distinct states', out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.prints = [unprint(x) for x in re.findall(r'^"(.*)"$', out, re.M)]
    r.invariant = re.findall(r'Error: Invariant (\S+) is violated', out)
    r.errors = [x for x in re.findall(r'^Error: (.*)$', out, re.M)]
    shutil.rmtree(d, ignore_errors=True)
    return r


def unprint(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')


def tlc_must(r, what):
    if r.timeout or r.rc not in (0,) or r.errors:
        i = r.out.find('Error:')
        print(r.out[max(0, i - 200):][:4000] if i >= 0 else r.out[-3000:])
        raise ToolError(f'TLC failed on {what} (rc {r.rc}, timeout {r.timeout})')


def spec_hash(*names):
    h = hashlib.sha256()
    for n in names:
        h.update(open(os.path.join(V, 'spec', n), 'rb').read())
    return h.hexdigest()[:12]


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.violations, self.known, self.cov, self.assume = [], [], {}, []
        self.findings = load_known(prop)
        self.dir = os.path.join(BUILD, 'replay')
        os.makedirs(self.dir, exist_ok=True)

    def violate(self, key, data, summary=''):
        """key identifies the failing input/site; listed keys are known findings"""
        for f in self.findings:
            if f['match'] == key or (f.get('prefix') and key.startswith(f['match'])):
                if f not in self.known:
                    self.known.append(f)
                return
        n = len(self.violations)
        path = os.path.join(self.dir, f'{self.prop}-{n}.json')
        self.violations.append(key)
        if n < 20:
            json.dump({'property': self.prop, 'key': key, 'summary': summary, 'data': data}, open(path, 'w'), indent=1, default=str)
            print(f'VIOLATION property={self.prop} replay={path}')
            print(f'   {key}: {summary}'[:600], flush=True)

    def finish(self, **cov):
        self.cov.update(cov)
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        ev = {'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assume, 'wall_s': round(time.time() - T0, 1),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', self.prop + '.json'), 'w'), indent=1)
        log('done', {k: v for k, v in self.cov.items() if isinstance(v, (int, bool))}, 'violations', len(self.violations))
        sys.exit(1 if self.violations else 0)


def load_known(prop):
    p = os.path.join(V, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop]


def main(fn):
    try:
        fn()
    except ToolError as e:
        print('TOOL ERROR:', e)
        sys.exit(2)
