"""Where does exploration fork?  python3-vt tools/forks.py C01 'case substring' """
import sys, json, collections, traceback, os, time
sys.path.insert(0, '/verif')
sys.dont_write_bytecode = True
from symx import instr, models, core, world
instr.install('/repo', '/verif/harness'); models.install(); models.install_foreign()
core.set_engine(core.Engine())
import importlib
mod = importlib.import_module('harness.' + sys.argv[1].lower())
cases = [c for c in mod.cases('quick') if sys.argv[2] in json.dumps(c, ensure_ascii=False)]
case = cases[0]
print(case)
cnt = collections.Counter()
ob = core.Engine.branch
def branch(self, e):
    n = len(self.stack); p = self.pos; f = self.forks
    r = ob(self, e)
    if self.forks > f:
        st = traceback.extract_stack()
        fr = [f'{os.path.basename(x.filename)}:{x.lineno}:{x.name}' for x in st if '/symx/hooks' not in x.filename and (os.environ.get('A') or '/symx/' not in x.filename)][-int(os.environ.get('D','9')):-1]
        cnt[' < '.join(reversed(fr))] += 1
    return r
core.Engine.branch = branch
e = core.Engine(); core.set_engine(e)
t=time.time()
n=0
while time.time()-t < 20:
    e.reset_path(); w = world.SymWorld('/dev/shm/forks'); w.start()
    try: mod.run(w, case)
    except core.SxBase as x: print(type(x), x)
    n+=1
    if not e.backtrack(): break
print(n, 'paths')
for k, v in cnt.most_common(12): print(v, k)
