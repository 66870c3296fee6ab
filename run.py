"""Entry point of every check: run.py PROPERTY [--tier T] [--replay FILE]"""
import argparse, os, sys, tempfile, shutil, atexit, warnings

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--sub', help='only this sub-check (development)')
    ap.add_argument('--scale', type=float, default=1.0, help='multiplies the number of cases (development)')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS') or 0))
    a = ap.parse_args()

    scratch = tempfile.mkdtemp(prefix='pbt-')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
    # matplotlib's font list: reuse a copy of an existing one, never write in someone else's folder
    mpl = os.path.join(scratch, 'mpl')
    os.makedirs(mpl)
    for d in (os.environ.get('MPLCONFIGDIR'), '/opt/vp/mpl'):
        if d and os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith('fontlist'):
                    shutil.copy(os.path.join(d, f), mpl)
    os.environ['MPLCONFIGDIR'] = mpl
    os.environ['VERIF_SCRATCH'] = scratch
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp')
    sys.dont_write_bytecode = True
    warnings.filterwarnings('ignore', category=SyntaxWarning)

    repo = os.path.abspath(os.environ.get('VERIF_REPO') or '/repo')
    sys.path.insert(0, HERE)
    sys.path.insert(0, repo)
    try:
        import hypothesis  # noqa
    except ImportError:
        for d in ('/opt/veriftools/pyvenv/lib/python%d.%d/site-packages' % sys.version_info[:2],):
            if os.path.isdir(d):
                sys.path.append(d)  # last: numpy and scipy stay those of the project
    from pbt import core
    return core.run_property(a, repo, HERE)


if __name__ == '__main__':
    sys.exit(main())
