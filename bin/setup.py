#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles its drivers from /repo.  This only verifies the toolchain and parses every specification."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def sany(f):
    p = subprocess.run(['java', '-XX:+UseSerialGC', '-Xss16m', '-cp', JAR, 'tla2sany.SANY', os.path.basename(f)], cwd=os.path.join(ROOT, 'spec'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, p.returncode == 0, p.stdout


bad = 0
for f, ok, out in ThreadPoolExecutor(8).map(sany, sorted(glob.glob(ROOT + '/spec/*.tla'))):
    if not ok:
        bad = 1
        print(f, out[-1500:])
sys.exit(bad)
