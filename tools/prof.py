"""Profile of a case: python3-vt tools/prof.py C08 '{"k": "parse", "n": 5}' [sort]"""
import cProfile, importlib, json, os, pstats, queue, sys, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(5000)
from symx import driver, instr, models, core
instr.install(driver.REPO, '/verif/harness')
models.install()
models.install_foreign()
core.set_engine(core.Engine())
m = sys.argv[1].lower()
mod = importlib.import_module('harness.' + m)
out = queue.Queue()
os.makedirs('/dev/shm/prof', exist_ok=True)
conc = driver.Concrete(m, '/dev/shm/prof')
pr = cProfile.Profile()
pr.enable()
try:
    driver.explore(mod, m, json.loads(sys.argv[2]), '/dev/shm/prof', conc, time.time() + 60, 30, out)
finally:
    pr.disable()
    conc.stop()
    pstats.Stats(pr).sort_stats(sys.argv[3] if len(sys.argv) > 3 else 'tottime').print_stats(28)
