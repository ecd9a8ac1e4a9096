"""python -m dst.fresh: execute operations in a fresh interpreter (its own hash seed, real sets, time zone, working
directory). Reads {"plan":…, "setup":…} as JSON from stdin, writes the pickled outcomes to the file named in argv."""
import json
import os
import pickle
import subprocess
import sys


def main():
    job = json.load(sys.stdin)
    from dst import boot
    boot.load(plots=job.get('plots', False))
    import importlib
    mod = importlib.import_module('dst.props.' + job['prop'].lower())
    res = mod.in_fresh(job)
    with open(sys.argv[1], 'wb') as f:
        pickle.dump(res, f, protocol=4)


def run(job, env, cwd, out, timeout=240):
    """Returns in_fresh(job) of the property module, computed by a new interpreter; None if the time ran out."""
    from dst import boot
    e = boot.sim_env(**env)
    e['PYTHONPATH'] = boot.VERIF
    p = subprocess.run([boot.PY, '-B', '-m', 'dst.fresh', out], input=json.dumps(job).encode(), env=e, cwd=cwd,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0 or not os.path.exists(out):
        raise RuntimeError('fresh interpreter failed: %s' % p.stdout.decode(errors='replace')[-2000:])
    with open(out, 'rb') as f:
        return pickle.load(f)


if __name__ == '__main__':
    main()
