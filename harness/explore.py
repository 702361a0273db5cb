"""Interactive exploration helper: runs a python snippet (stdin) in a scratch home, with session `s`."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo')); sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
home = tempfile.mkdtemp(prefix='verif_x_'); os.environ['HOME'] = home
sys.dont_write_bytecode = True
os.chdir(home)
from harness import mar
code = sys.stdin.read()
try:
    exec(compile(code, 'x', 'exec'), dict(mar=mar, home=home, os=os, sys=sys))
except BaseException:
    import traceback; traceback.print_exc()
finally:
    sys.stdout.flush()
    shutil.rmtree(home)
    os._exit(0)
