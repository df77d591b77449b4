"""Building the harness, replaying cases into it, and writing the evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

from tlc import run_tlc, ToolError, VERIF

NCPU = 8
NOTES = {}                # counters reported by the harness
CASE_LIMIT = 300          # seconds a single case may take before it counts as hanging


def env():
    e = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_INCREMENTAL', 'CARGO_PROFILE_DEV_DEBUG', 'CARGO_PROFILE_DEV_OPT_LEVEL', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e['HOME'] = e.get('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['RUSTUP_TOOLCHAIN'] = '1.71.1'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUST_BACKTRACE'] = '0'
    return e


def forget_if_changed(target):
    """cargo looks at modification times only: forget the crate when its contents changed."""
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk('/repo')):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.lock')):
                p = os.path.join(root, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    mark = os.path.join(target, 'source.sha256')
    old = open(mark).read() if os.path.exists(mark) else ''
    if old != h.hexdigest():
        for d in glob.glob(os.path.join(target, '*', '.fingerprint', 'merkletree-*')):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        open(mark, 'w').write(h.hexdigest())


def build(features, work, profile='dev'):
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(VERIF, '.work', 'target')
    log = os.path.join(work, 'build-%s.log' % profile)
    forget_if_changed(e['CARGO_TARGET_DIR'])
    t0 = time.time()
    with open(log, 'w') as f:
        p = subprocess.run(['cargo', 'build', '--offline', '--profile', profile, '--no-default-features', '--features', ','.join(features)],
                           cwd=os.path.join(VERIF, 'harness'), env=e, stdout=f, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise ToolError('harness does not build, see %s\n%s' % (log, open(log).read()[-3000:]))
    dst = os.path.join(work, 'vh-%s' % profile)
    shutil.copy(os.path.join(VERIF, '.work', 'target', 'debug' if profile == 'dev' else profile, 'vh'), dst)
    return dst, time.time() - t0


def builds(features, work, profiles):
    r = [build(features, work, x) for x in profiles]
    return [x[0] for x in r], sum(x[1] for x in r)


class Failure:
    def __init__(self, line_no, case, msg):
        self.line_no, self.case, self.msg = line_no, case, msg


def replay(vh, cases_file, work, shards=NCPU, limit=CASE_LIMIT, pool=None, max_fail=20):
    """Runs the shards; returns (cases, checks, failures)."""
    lines = open(cases_file).read().splitlines()
    shards = max(1, min(shards, len(lines)))
    fails, cases, checks = [], 0, 0
    procs = []
    for s in range(shards):
        prog = os.path.join(work, 'prog%d' % s)
        open(prog, 'w').close()
        out = open(os.path.join(work, 'out%d' % s), 'w+')
        err = open(os.path.join(work, 'err%d' % s), 'w+')
        scratch = os.path.join(work, 'scratch')
        os.makedirs(scratch, exist_ok=True)
        e = env()
        e['RAYON_NUM_THREADS'] = str(pool or 4)
        e['TMPDIR'] = os.path.join(work, 'tmp%d' % s)
        os.makedirs(e['TMPDIR'], exist_ok=True)
        e['VH_TRACE'] = os.path.join(work, 'trace%d' % s)
        p = subprocess.Popen([vh, 'replay', cases_file, str(s), str(shards), scratch, prog], stdout=out, stderr=err,
                             env=e, cwd=e['TMPDIR'], start_new_session=True)
        procs.append([p, prog, out, err, None, time.time()])
    live = list(range(shards))
    while live:
        time.sleep(0.05)
        for s in list(live):
            p, prog, out, err, last, since = procs[s]
            cur = open(prog).read().strip()
            if cur != last:
                procs[s][4], procs[s][5] = cur, time.time()
                since = procs[s][5]
            rc = p.poll()
            if rc is None:
                if time.time() - since > limit:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    no = int(cur.split()[0]) if cur else 0
                    fails.append(Failure(no, lines[no], 'the call did not return within %d s' % limit))
                    live.remove(s)
                continue
            live.remove(s)
            out.seek(0)
            done = False
            for ln in out.read().splitlines():
                if ln.startswith('FAIL '):
                    _, no, msg = ln.split(' ', 2)
                    fails.append(Failure(int(no), lines[int(no)], json.loads(msg)))
                elif ln.startswith('NOTE '):
                    NOTES[ln[5:]] = NOTES.get(ln[5:], 0) + 1
                elif ln.startswith('DONE '):
                    done = True
                    _, a, b = ln.split()
                    cases += int(a)
                    checks += int(b)
            if not done:
                err.seek(0)
                et = err.read()
                no = int(cur.split()[0]) if cur else 0
                if rc == 3 or rc >= 0 and rc != 101:
                    raise ToolError('harness failed (exit %d) on case %d: %s\n%s' % (rc, no, lines[no][:2000], et[-3000:]))
                fails.append(Failure(no, lines[no], 'the process was ended (status %d): %s' % (rc, et[-300:])))
    fails.sort(key=lambda f: f.line_no)
    shutil.rmtree(os.path.join(work, 'scratch'), ignore_errors=True)
    for s in range(shards):
        shutil.rmtree(os.path.join(work, 'tmp%d' % s), ignore_errors=True)
    return cases, checks, fails


def clip(x, n=1500):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'
