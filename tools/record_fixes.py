"""record_fixes.py 'Pxx' '<commit subject prefix>' '<what failed>' : appends a fixed entry."""
import subprocess, sys, os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')
def add(prop, subject, what):
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
    m = [l.split(' ', 1)[0] for l in log if l.split(' ', 1)[1].startswith('fix: ' + subject)]
    assert len(m) == 1, (subject, m)
    with open(F, 'a') as f:
        f.write('fixed: property=%s %s %s\n' % (prop, m[0], what))
if __name__ == '__main__':
    for l in sys.stdin:
        if l.strip():
            add(*[x.strip() for x in l.split('|')])
