"""Development: run the checks of planted bugs.

seedcheck.py [id ...]   run the property's check against each /verif/seeded/<id>
in a scratch copy of /repo and print whether it is caught.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    names = sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded'))
    for name in names:
        folder = f'{VERIF}/seeded/{name}'
        prop = json.load(open(folder + '/meta.json'))['property']
        d = tempfile.mkdtemp(prefix='seedcheck.')
        try:
            shutil.copytree('/repo', d + '/repo')
            subprocess.run(['git', 'apply', folder + '/patch.diff'], cwd=d + '/repo', check=True)
            t = time.time()
            r = subprocess.run([VERIF + '/check', prop], capture_output=True, text=True,
                               env=dict(os.environ, GCS_REPO=d + '/repo', PBT_RESULTS=d + '/out'))
            out = r.stdout.strip().splitlines()
            caught = r.returncode == 1 and any(
                line.startswith(f'VIOLATION property={prop} ') for line in out)
            print(f'{name}: {"caught" if caught else "MISSED"} {time.time() - t:.0f} s',
                  '|'.join(out)[-300:] if not caught else '', flush=True)
        finally:
            shutil.rmtree(d)


main()
