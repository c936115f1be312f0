import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10**6); threading.stack_size(512*1024*1024)
import core, interp
def main():
    crate, fn = sys.argv[1], sys.argv[2]
    only = sys.argv[3:] 
    core.reset()
    F = interp.Facts(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build/facts/%s.json' % crate))
    import api
    api.dump(F, fn, only)
t=threading.Thread(target=main); t.start(); t.join()
