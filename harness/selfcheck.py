"""setup_cmd: both interpreters start and the code under test imports."""
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver  # noqa
import registry  # noqa

d = tempfile.mkdtemp(prefix='verif-self-')
w = driver.Worker('pypy', d)
try:
    r = w.run('blocklist', 'history', {
        'cell': 1, 'kind': 'list', 'form': 'tuple',
        'ops': [['set', [0.5, 0.5], 1], ['near', [0, 0], 1]]}, 120)
finally:
    w.stop()
    shutil.rmtree(d, ignore_errors=True)
print(r, len(registry.PROPS), 'properties')
# A verdict belongs to the checks; only a broken harness stops here.
sys.exit(0 if r['ok'] or r['kind'] == 'violation' else 2)
