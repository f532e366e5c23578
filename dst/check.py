"""Entry point: python check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os, sys

ENV = {'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
       'MPLBACKEND': 'Agg', 'CUDA_VISIBLE_DEVICES': '', 'OILSIM_SIM_HOOKS': '1', 'PYTHONUNBUFFERED': '1'}


def boot():
    want = dict(ENV)
    if 'PYTHONHASHSEED' not in os.environ: want['PYTHONHASHSEED'] = '0'
    py = '/opt/venv/bin/python'
    ok = all(os.environ.get(k) == v for k, v in want.items()) and not os.environ.get('PYTHONPATH') \
        and not os.environ.get('OIL_DEBUG_COMPONENT')
    if not ok or os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
        if os.environ.get('DST_BOOTED') == '1': return
        env = dict(os.environ); env.update(want); env['DST_BOOTED'] = '1'
        for k in ('PYTHONPATH', 'PYTHONHOME', 'OIL_DEBUG_COMPONENT'): env.pop(k, None)
        os.execve(py, [py] + sys.argv, env)


if __name__ == '__main__':
    boot()
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    import importlib, tempfile, shutil
    mpl = tempfile.mkdtemp(prefix='dst_mpl_')
    os.environ['MPLCONFIGDIR'] = mpl
    rc = 2
    try:
        prop = sys.argv[1]
        import seams
        seams.load_repo()
        import core
        mod = importlib.import_module('props.' + prop)
        rc = core.main(mod.CHECK, sys.argv[2:])
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(mpl, ignore_errors=True)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
