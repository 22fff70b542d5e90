#!/usr/bin/env python3
"""Write a planted bug: tools/plant.py SPEC.py, where SPEC.py defines BUGS, a list of
dicts(id, property, needs, breaks, edits=[(file, old, new)], demo=python text[, files={name: text}]).
Refuses edits of lines which the original repository does not have."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

REPO = '/repo'
OUT = os.environ.get('SEEDED', '/verif/seeded')
DEMO_SH = '''#!/bin/bash
# cwd is /repo, built. Exit 0: the property holds; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 0
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 0
export PYTHONPATH=$repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$work REPO=$repo
timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py" < /dev/null
'''


def git(*args, cwd=REPO):
    return subprocess.run(('git',) + args, cwd=cwd, capture_output=True, text=True, check=True).stdout


def main(spec):
    root = git('rev-list', '--max-parents=0', 'HEAD').strip()
    for bug in runpy.run_path(spec)['BUGS']:
        ok = True
        texts = {}
        for path, old, new in bug['edits']:
            text = texts.get(path) or open(os.path.join(REPO, path)).read()
            if text.count(old) != 1:
                print(bug['id'], 'edit matches', text.count(old), 'times:', old[:70])
                ok = False
                continue
            texts[path] = text.replace(old, new)
        if not ok:
            continue
        with tempfile.TemporaryDirectory() as w:
            for side in 'ab':
                for path in texts:
                    os.makedirs(os.path.dirname(os.path.join(w, side, path)), exist_ok=True)
                    if side == 'a':
                        shutil.copy(os.path.join(REPO, path), os.path.join(w, side, path))
                    else:
                        open(os.path.join(w, side, path), 'w').write(texts[path])
            r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=w,
                               capture_output=True, text=True)
            diff = r.stdout
        blame = {}
        changed = orig = 0
        cur = None
        line = 0
        for l in diff.split('\n'):
            if l.startswith('--- '):
                cur = l.split('a/', 1)[1]
                if cur not in blame:
                    blame[cur] = [x.split()[0] for x in git('blame', '-s', '-l', '--root', cur).split('\n') if x]
            elif l.startswith('@@'):
                line = int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') and not l.startswith('---'):
                changed += 1
                if blame[cur][line - 1].lstrip('^')[:30] == root[:30]:
                    orig += 1
                else:
                    print(bug['id'], 'changes a line of a later commit:', l[:90])
                line += 1
            elif l.startswith(' '):
                line += 1
        if not orig:
            print(bug['id'], 'changes no original line', changed)
        d = os.path.join(OUT, bug['id'])
        os.makedirs(d, exist_ok=True)
        lines = diff.split('\n')
        # turn "a/..." paths of the no-index diff into the ordinary ones
        open(os.path.join(d, 'patch.diff'), 'w').write('\n'.join(lines))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(bug['demo'].lstrip('\n'))
        for name, text in bug.get('files', {}).items():
            open(os.path.join(d, name), 'w').write(text)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = subprocess.run(['git', 'apply', '--check', os.path.join(d, 'patch.diff')], cwd=REPO,
                           capture_output=True, text=True)
        print(bug['id'], 'planted' if r.returncode == 0 else 'PATCH DOES NOT APPLY ' + r.stderr,
              '%d lines changed, %d original' % (changed, orig))


main(sys.argv[1])
