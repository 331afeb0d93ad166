"""setup_cmd: checks that the tools the checks need are there."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import impl
S = impl.Schema()
assert len(S.cls) > 1000
subprocess.run(['java', '-version'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
assert os.path.exists('/opt/veriftools/tla/tla2tools.jar')
print('ready: %d classes in the schema' % len(S.cls))
