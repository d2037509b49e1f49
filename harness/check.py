#!/opt/venv/bin/python
"""check.py PID [--tier quick|thorough] [--seed N]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

GROUPS = dict(checks_wire=['P09', 'P10', 'P11', 'P12'],
              checks_flic=['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P17', 'P24'],
              checks_state=['P19', 'P22'], checks_walk=['P18', 'P30'],
              checks_values=['P20', 'P21', 'P26'], checks_sign=['P13', 'P25'],
              checks_crypt=['P14', 'P15', 'P16'], checks_net=['P27'],
              checks_cli=['P23'], checks_show=['P28'], checks_keys=['P29'],
              checks_factory=['P31'])

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = next(m for m, ps in GROUPS.items() if pid in ps)
    sys.exit(common.main(pid, lambda chk: getattr(importlib.import_module(mod), pid)(chk)))
