#!/usr/bin/python3
"""Development tool: ov.py CHECKS MODULE <<< 'OLD' ==== 'NEW' : run checks on a text replacement, in memory."""
import os, sys, threading
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mut


def main():
    props, mod = sys.argv[1].split(','), sys.argv[2]
    src = open('/repo/' + mod.replace('.', '/') + '.py').read()
    for block in sys.stdin.read().split('\n#####\n'):
        s = src
        for part in block.split('\n++++\n'):
            old, new = part.split('\n====\n')
            old, new = old.strip('\n'), new.strip('\n')
            if s.count(old) != 1:
                print('found', s.count(old), 'times:', old)
                return
            s = s.replace(old, new)
        for p in props:
            n_, txt, chk = mut.run_check(p, overlay={mod: s})
            print(p, n_, txt[:300], '| undecided', len(chk.undec))


t = threading.Thread(target=main)
t.start()
t.join()
