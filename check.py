#!/opt/venv/bin/python
"""check.py <property id>: decides one property; see DESIGN.md."""
import atexit, os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
pyc = tempfile.mkdtemp(prefix='pyc-')
atexit.register(shutil.rmtree, pyc, True)
sys.pycache_prefix = pyc           # never read bytecode left beside the sources
sys.path.insert(0, REPO)
os.environ['PYTHONPATH'] = REPO
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['PYTHONPYCACHEPREFIX'] = pyc
import logging
logging.disable(logging.CRITICAL)
import warnings
warnings.simplefilter('ignore')
CHECKS = dict(C01='c_assoc', C02='c_assoc', C03='c_assoc', C04='c_assoc', C05='c_construct', C06='c_schema', C07='c_maps', C08='c_imports', C09='c_read', C10='c_read', C11='c_read', C12='c_read', C13='c_read', C14='c_read', C15='c_read', C16='c_write', C17='c_write', C18='c_xml', C19='c_xml', C20='c_xml', C21='c_perlength', C22='c_damage', C23='c_together')
def main():
    pid = sys.argv[1]
    import importlib, traceback, common
    common.watch()
    try: return importlib.import_module(CHECKS[pid]).run(pid)
    except (Exception, common.NoAnswer) as e:
        # the library failed where every specification expects it to work
        text = str(e) if isinstance(e, common.Hangs) else traceback.format_exc().split('\nThe above exception')[0]
        files = [l for l in text.splitlines() if l.strip().startswith('File "') and not l.endswith(', in alarm')]
        inner = files[-1].split('"')[1] if files else ''
        if isinstance(e, ImportError) or os.path.abspath(inner).startswith(os.path.abspath(REPO) + os.sep):
            c = common.Check(pid)
            c.violation('no answer' if isinstance(e, (common.Hangs, common.NoAnswer)) else 'unexpected exception', traceback.format_exc()[-1500:].replace('\n', ' | '), traceback.format_exc())
            return c.finish()
        raise
if __name__ == '__main__':
    sys.exit(main())
