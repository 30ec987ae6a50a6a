#!/usr/bin/env python3
"""Entry point of every check:  python3 check.py C01            (VERIF_SEED, VERIF_TIER from the environment)
                                python3 check.py C01 --replay out/C01/xyz.json
Builds what is needed from /repo's working tree (the package is loaded from source; the I/O shim is compiled)
and runs the seeded simulation in worker processes."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def shim():
    src = os.path.join(HERE, 'sim', 'shim', 'iofault.c')
    out = os.path.join(HERE, 'build', 'iofault.so')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = f'{out}.{os.getpid()}'
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
        os.replace(tmp, out)
    return out


def env(so):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('MEENT', 'TQDM', 'JAX_', 'XLA_')) or k in ('LD_PRELOAD', 'PYTHONPATH', 'PYTHONSTARTUP'):
            del e[k]
    e.update(PYTHONHASHSEED=os.environ.get('VERIF_HASHSEED', '0'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
             CUDA_VISIBLE_DEVICES='', XLA_FLAGS='--xla_backend_optimization_level=0 '
             '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
             PYTHONPATH=HERE, VERIF_SHIM=so, TZ='UTC', LC_ALL='C.UTF-8')
    return e


if __name__ == '__main__':
    so = shim()
    if sys.argv[1:] == ['--build']:
        sys.exit(0)
    os.chdir(HERE)
    os.execve(PY, [PY, '-m', 'sim.runner'] + sys.argv[1:], env(so))
