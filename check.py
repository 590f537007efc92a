#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: run one property's check (tier and seed from VERIF_TIER / VERIF_SEED)"""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/lib', V + '/checks']
sys.dont_write_bytecode = True
os.environ.setdefault('LC_ALL', 'C.UTF-8')
import core

if __name__ == '__main__':
    pid = sys.argv[1]
    if len(sys.argv) > 2: core.TIER = sys.argv[2]
    mod = __import__(pid.lower())
    ck = core.Check(pid, getattr(mod, 'LEVEL', 'translation_validation'))
    core.ensure_symx()
    mod.run(ck, core.TIER == 'thorough')
    ck.finish()
