#!/usr/bin/env python3
"""Builds the framework: the compiled module of the code under test and the
tables enumerated by TLC, in work/ (both are rebuilt by a check if needed)."""
import subprocess
import sys
import os

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.path.insert(0, HERE)
import common as C      # noqa: E402
import check            # noqa: E402

C.ext_dir()
check.ensure_tables()
for m in ('Trace', 'Adaptive', 'Lemmas', 'LinLemmas', 'Run', 'Tables', 'Files', 'Pipeline', 'Gen'):
    subprocess.run(['java', '-cp', '/opt/veriftools/tla/tla2tools.jar:'
                    '/opt/veriftools/tla/CommunityModules-deps.jar',
                    'tla2sany.SANY', m + '.tla'], cwd=C.SPEC, check=True,
                   stdout=subprocess.DEVNULL)
print('ready')
