"""runinc.py SCRIPT SOURCE REPLICA PASSWORD: the incremental update, until it waits for changes"""
import importlib.util
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location('incremental', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)


class Waits(Exception):
    pass


def sleep(n):
    raise Waits()


m.time.sleep = sleep
x = m.ZDBIncremental(sys.argv[2], 0, sys.argv[3], 0)
if sys.argv[4]:
    for t in (x.master, x.slave):
        if not x.authenticate(t, sys.argv[4]):
            sys.exit('not authenticated')
try:
    x.run()
except Waits:
    print('\nWAITS')
