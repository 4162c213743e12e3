"""Source -> program database.

Compiles every translation unit the Makefile would build for the daemon (asked with `make -n`) to LLVM bitcode with the
real flags, and runs the exporter (export.cpp) on it.  Everything happens in a private temporary directory; the result
is the parsed JSON (never cached between runs, so that the current working tree is what is analysed)."""
import json, os, re, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'preload-src')
BUILD = os.path.join(os.path.dirname(HERE), 'build')


class Broken(Exception):
    """The analysis itself cannot give an answer (exit 2)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_exporter():
    out = os.path.join(BUILD, 'export')
    src = os.path.join(HERE, 'export.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    cfg = lambda a: sh(['llvm-config-18', a]).stdout.split()
    tmp = out + '.%d' % os.getpid()
    r = sh(['g++', '-O1', '-std=c++17', '-fno-rtti'] + cfg('--cppflags') + [src, '-o', tmp] + cfg('--ldflags') + ['-lLLVM-18'])
    if r.returncode:
        raise Broken('cannot build the exporter: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def compile_commands():
    env = dict(os.environ, LC_ALL='C.UTF-8')
    env.pop('MAKEFLAGS', None)
    r = sh(['make', '-n', '-B', 'CC=gcc', 'preload'], cwd=SRC, env=env)
    if r.returncode:
        raise Broken('make -n failed: ' + r.stderr[-500:])
    cmds = []
    for line in r.stdout.replace('\\\n', ' ').splitlines():
        try:
            w = shlex.split(line)
        except ValueError:
            continue
        if not w or os.path.basename(w[0]) not in ('gcc', 'cc', 'clang') or '-c' not in w:
            continue
        srcs = [x for x in w[1:] if x.endswith('.c')]
        if len(srcs) != 1:
            raise Broken('unexpected compile command: ' + line)
        flags, skip = [], False
        for x in w[1:]:
            if skip:
                skip = False
            elif x in ('-o', '-MF', '-MT', '-MQ'):
                skip = True
            elif x in ('-c', '-MMD', '-MD', '-MP') or x == srcs[0] or re.match(r'-(O|g|Werror|flto|fsanitize|W)', x):
                pass
            else:
                flags.append(x)
        cmds.append((srcs[0], flags))
    if len(cmds) < 5:
        raise Broken('only %d compile commands found' % len(cmds))
    return cmds


def load(jobs):
    """jobs: list of 'name root [unroll] [stop=..]' -> (database dict, list of source files)"""
    exp = ensure_exporter()
    cmds = compile_commands()
    tmp = tempfile.mkdtemp(prefix='verif-sa-')
    try:
        base = ['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-w', '-emit-llvm', '-c',
                '-U_FORTIFY_SOURCE']
        glib = sh(['pkg-config', '--cflags', 'glib-2.0']).stdout.split()
        todo = [(s, f, os.path.join(tmp, '%03d.bc' % i), SRC) for i, (s, f) in enumerate(cmds)]
        todo.append((os.path.join(HERE, 'models.c'), glib, os.path.join(tmp, 'models.bc'), tmp))

        def one(t):
            s, f, o, cwd = t
            return s, sh(base + f + [s, '-o', o], cwd=cwd)
        with ThreadPoolExecutor(8) as ex:
            for s, r in ex.map(one, todo):
                if r.returncode:
                    raise Broken('cannot compile %s: %s' % (s, r.stderr[-1500:]))
        with open(os.path.join(tmp, 'jobs'), 'w') as f:
            f.write('\n'.join(jobs) + '\n')
        r = sh([exp, os.path.join(tmp, 'out.json'), os.path.join(tmp, 'jobs')] + [t[2] for t in todo])
        if r.returncode:
            raise Broken('exporter failed (%d): %s' % (r.returncode, r.stderr[-2000:]))
        with open(os.path.join(tmp, 'out.json'), encoding='latin-1') as f:
            db = json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return db, [s for s, _ in cmds]


if __name__ == '__main__':
    db, srcs = load(sys.argv[1:])
    json.dump(db, open('/tmp/db.json', 'w'))
    print(len(db['functions']), len(db['flat']), len(srcs))
    for f in db['flat']:
        print(f['name'], len(f['blocks']), sum(len(b) for b in f['blocks']))
