"""Loads the dumped type-checked program and builds it when needed."""
import hashlib, json, os, subprocess, sys, fcntl, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PRV_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
CRATES = ['prost_reflect', 'prost_reflect_derive', 'prost_reflect_build']


class Broken(Exception):
    """An anchor of the analysis is missing: reported as a violation (fail closed)."""


def _sh(cmd, env=None, cwd=None, timeout=1500):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def base_env():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTDOCFLAGS', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['RUSTC_WRAPPER'] = ''
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        e = base_env()
        e['RUSTUP_TOOLCHAIN'] = 'nightly'
        rc, out = _sh(['rustc', '--print', 'sysroot'], env=e)
        if rc:
            raise Broken('no nightly toolchain: ' + out)
        _sysroot = out.strip().splitlines()[-1]
    return _sysroot


def _hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def source_files():
    out = []
    for crate in ('prost-reflect', 'prost-reflect-derive', 'prost-reflect-build'):
        for dp, dn, fn in os.walk(os.path.join(REPO, crate)):
            dn[:] = [d for d in dn if d not in ('target', '.git', 'tests', 'proptest-regressions')]
            for f in fn:
                if f.endswith(('.rs', '.toml', '.bin', '.proto', '.md')):
                    out.append(os.path.join(dp, f))
    for f in ('Cargo.toml', 'Cargo.lock', 'README.md'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def build_driver():
    srcs = [os.path.join(VERIF, 'driver', f) for f in ('main.rs', 'json.rs')]
    h = _hash_files(srcs)
    exe = os.path.join(CACHE, 'prvdump-' + h)
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        e = base_env()
        e['RUSTUP_TOOLCHAIN'] = 'nightly'
        tmp = exe + '.tmp%d' % os.getpid()
        rc, out = _sh(['rustc', '--edition', '2021', '-O', srcs[0], '-o', tmp], env=e)
        if rc:
            raise Broken('driver does not build:\n' + out[-3000:])
        os.rename(tmp, exe)
    return exe


def dump():
    """Path of the directory holding the dump of the current /repo tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        h = hashlib.sha256((_hash_files(source_files()) + os.path.basename(exe) + REPO).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, 'dump-' + h)
        if all(os.path.exists(os.path.join(out, c + '.json')) for c in CRATES):
            return out
        # keep only a few dumps
        old = sorted((d for d in os.listdir(CACHE) if d.startswith('dump-')),
                     key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in old[:-4]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        tgt = os.path.join(CACHE, 'target')
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('prost-reflect'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e = base_env()
        sr = sysroot()
        e.update(RUSTUP_TOOLCHAIN='1.82.0', RUSTC=sr + '/bin/rustc', LD_LIBRARY_PATH=sr + '/lib',
                 PRV_CRATES=','.join(CRATES), PRV_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=exe,
                 CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0')
        rc, log = _sh(['cargo', 'check', '--locked', '--offline', '-p', 'prost-reflect', '-p', 'prost-reflect-build',
                       '-p', 'prost-reflect-derive', '--all-features'], env=e, cwd=REPO)
        missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + '.json'))]
        if rc or missing:
            raise Broken('the tree does not type-check under the analysis driver (%s):\n%s' % (missing, log[-4000:]))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out


class Body:
    __slots__ = ('key', 'd', 'name', 'blocks', 'locals', 'argc', 'names', 'file', 'line', 'closure', 'local', 'promoted',
                 'rpo', 'idx', 'loops', 'loop_of', 'live', 'addr', 'preds', 'args', 'spread')

    def __init__(self, key, d):
        self.key = key
        self.d = d
        self.name = d.get('n', key)
        self.blocks = d['blocks']
        self.locals = d['locals']
        self.argc = d['argc']
        self.names = dict((a, b) for a, b in d.get('names', []))
        self.file = d['file']
        self.line = d['line']
        self.closure = d.get('closure', False)
        self.local = d.get('local', True)
        self.args = d.get('a', [])
        self.spread = d.get('spread')
        self.promoted = [Body(key + '#p%d' % i, dict(p, n=self.name)) if p else None for i, p in enumerate(d.get('promoted', []))]
        self.rpo = None


class Program:
    def __init__(self, path=None, crate='prost_reflect'):
        t = time.time()
        path = path or dump()
        self.crates = {}
        self.types = []
        self.adts = {}
        self.fns = []
        self.bodies = {}
        self.impls = []
        self.statics = []
        self.path = path
        d = json.load(open(os.path.join(path, crate + '.json')))
        self.types = d['types']
        self.adts = dict((k, v) for k, v in d['adts'])
        self.fns = d['fns']
        self.impls = d['impls']
        self.statics = d['statics']
        self.unsafe = d['unsafe']
        for k, b in d['bodies']:
            if b.get('failed') or 'blocks' not in b:
                continue
            self.bodies[k] = Body(k, b)
        self.fn_by_name = {}
        for f in self.fns:
            self.fn_by_name.setdefault(f['n'], []).append(f)
        self.load_s = time.time() - t

    def find(self, name):
        r = self.fn_by_name.get(name)
        if not r:
            raise Broken('anchor function %s not found' % name)
        return r[0]

    def body_of(self, name):
        f = self.find(name)
        b = self.bodies.get(f['key'])
        if b is None:
            raise Broken('anchor function %s has no body' % name)
        return b

    def callees(self, key):
        """Keys and names of the functions a body calls directly."""
        b = self.bodies.get(key)
        out = set()
        for x in b.blocks if b is not None else []:
            t = (x or {}).get('t')
            if t and t[0] == 'call' and t[1][0] == 'const' and isinstance(t[1][1], dict) and 't' in t[1][1]:
                ty = self.types[t[1][1]['t']].get('c') or {}
                out |= {ty.get('key'), ty.get('n'), ty.get('r')}
        return out - {None}

    def ty(self, i):
        return self.types[i]

    def ts(self, i):
        return self.types[i]['s']

    def load_crate(self, name):
        return json.load(open(os.path.join(self.path, name + '.json')))
