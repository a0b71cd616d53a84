#!/opt/venv/bin/python
"""check.py <property id> : run the check of one property (see MANIFEST.json)."""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('MENPOFIT_REPO', '/repo'))
import warnings
warnings.filterwarnings('ignore')
import importlib
import traceback


def main():
    prop = sys.argv[1]
    import core
    ctx = core.Ctx(prop)
    try:
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
    except core.MachineryError as e:
        traceback.print_exc()
        print('MACHINERY ERROR: %s' % e)
        sys.exit(1 if ctx.nviol else 3)
    except Exception as e:
        # an error raised by the code under test outside a replayed case
        tb = traceback.extract_tb(sys.exc_info()[2])
        traceback.print_exc()
        if any('/menpofit/' in t.filename for t in tb):
            ctx.fail('setup/raises-%s' % type(e).__name__, {}, traceback.format_exc())
        else:
            ctx.finish()
            sys.exit(1 if ctx.nviol else 3)
    sys.exit(ctx.finish())


if __name__ == '__main__':
    main()
