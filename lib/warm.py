"""setup_cmd: checks the toolchain is there and parses every specification module."""
import subprocess, sys, os, glob, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for t in ('java', 'g++'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
mods = sorted(os.path.basename(f) for f in glob.glob(vlib.SPEC + '/*.tla'))
r = subprocess.run(['java', '-cp', vlib.CP, 'tla2sany.SANY'] + mods, cwd=vlib.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode or 'Fatal errors' in r.stdout or '*** Errors' in r.stdout:
    sys.exit(r.stdout[-3000:])
print('%d specification modules parsed' % len(mods))
