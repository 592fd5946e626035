"""Runs harnesses concretely against the real, freshly compiled build.  Reads JSON jobs on stdin, one
forked child per job (a crash of the code under test is contained), answers JSON lines."""
import importlib
import json
import os
import signal
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))


def main():
    import logging
    logging.disable(logging.CRITICAL)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import harness
    mod = sys.argv[1]
    scratch = sys.argv[2] if len(sys.argv) > 2 else None
    if scratch:
        os.chdir(scratch)
    for m in mod.split(','):
        importlib.import_module(m)
    cases = {c.key: c for c in harness.CASES}
    import jpt  # noqa
    import jpt.base.intervals as iv
    out.write(json.dumps(dict(ready=True, real=iv.__file__)) + '\n')
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(30)
            try:
                inputs = {k: (float(v) if isinstance(v, str) else v) for k, v in job['inputs'].items()}
                res = harness.run_concrete(cases[job['case']], inputs, job['choices'])
            except BaseException as e:  # noqa
                res = dict(status='error', msg=repr(e))
            try:
                os.write(w, json.dumps(res, default=repr).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if data:
            res = json.loads(data)
        else:
            sig = st & 0x7f
            if sig == signal.SIGALRM:
                res = dict(status='timeout')
            else:
                res = dict(status='crash', label='crash', msg='signal %d' % sig)
        res['id'] = job['id']
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
