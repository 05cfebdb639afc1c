"""Compile and run the C++ explorers, collect what they report."""
import os, subprocess
from .e2e import INC, VERIF, first_error, JOBS


class RT:
    def __init__(self):
        self.violations, self.candidates, self.samples, self.notes = [], [], [], []
        self.stats = {}
        self.ok = False


def build(workdir, src, tag, defs=(), flags=('-O2',), cxx='g++', timeout=600):
    exe = os.path.join(workdir, tag)
    cmd = [cxx, '-std=c++17', '-w', '-pthread', '-I', INC, '-I', os.path.join(VERIF, 'harness')] + list(flags) + ['-D' + d for d in defs] + \
          [os.path.join(VERIF, 'harness', src), '-o', exe]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'compile timed out'
    return (exe, '') if r.returncode == 0 else (None, first_error(r.stdout))


def run(exe, args, timeout=800):
    out = RT()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0')
    try:
        r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env)
        txt, rc, err = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        txt = e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        rc, err = -99, 'explorer exceeded %ss' % timeout
    for line in txt.splitlines():
        if line.startswith('V '):
            out.violations.append(line[2:])
        elif line.startswith('C '):
            out.candidates.append(line[2:])
        elif line.startswith('SAMPLE '):
            out.samples.append(line[7:])
        elif line.startswith('STATS '):
            f = line.split()[1:]
            k = None
            for x in f:
                if x.lstrip('-').isdigit():
                    out.stats[k] = out.stats.get(k, 0) + int(x)
                else:
                    k = x
    out.ok = rc == 0 and 'states' in out.stats
    out.rc, out.err = rc, err[-3000:]
    return out
