#!/usr/bin/python3
"""Development tool: undo each repair in a copy, and see if the check of its property reports it.  revtest.py [PROP|SHA..]"""
import os, re, shutil, subprocess, sys, tempfile, threading
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mut


def job(a):
    prop, sha, what = a
    tmp = tempfile.mkdtemp(prefix='rev')
    try:
        shutil.copytree('/repo/timeseria', tmp + '/timeseria', ignore=shutil.ignore_patterns('tests', 'static', '__pycache__'))
        d = subprocess.run(['git', '-C', '/repo', 'show', sha], capture_output=True, text=True).stdout
        r = subprocess.run(['patch', '-R', '-p1', '-s', '-f', '-d', tmp], input=d, capture_output=True, text=True)
        note = '' if r.returncode == 0 else ' (PARTIAL undo)'
        if not os.path.exists(os.path.join(HERE, 'checks', prop.lower() + '.py')):
            return '{} {} no check yet: {}'.format(prop, sha, what[:80])
        res = []

        def target():
            res.append(mut.run_check(prop, root=tmp))
        t = threading.Thread(target=target)
        t.start()
        t.join()
        n_, txt, chk = res[0]
        return '{} {} {}{} {}'.format(prop, sha, 'CAUGHT' if n_ else ('ERROR ' + txt if n_ is None else 'missed'), note, txt[:150] if n_ else what[:150])
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    from multiprocessing import Pool
    todo = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if m and (len(sys.argv) == 1 or m.group(1) in sys.argv or m.group(2) in sys.argv):
            todo.append(m.groups())
    with Pool(8) as pool:
        for x in pool.imap(job, todo, chunksize=1):
            print(x)
