import sys, time
sys.path.insert(0, "/verif/engine"); sys.path.insert(0, "/verif")
import extract, mir, exec as E
from terms import *

def load(config="main"):
    d = extract.extract([config])[config]
    import glob
    return mir.Program(sorted(glob.glob(d + "/*.json")))

def run_entry(P, fn, cut=None, budget=2000000):
    ex = E.Exec(P, cut, budget)
    st = E.State()
    args = []
    for i in range(fn.argc):
        ty = fn.locals[i + 1]
        n = fn.names.get(i + 1, "arg%d" % i)
        args.append(T("ref", n, ()) if ty[0] == "ref" else T("sym", n))
    t = time.time()
    outs = ex.exec_fn(st, fn, {}, args, ((fn.label(), fn.span),), 0, keep=False)
    ex.time = time.time() - t
    return ex, outs

if __name__ == "__main__":
    P = load(sys.argv[1])
    for q in sys.argv[2:]:
        a, n = q.split("::")
        fn = P.method(a, n)
        if fn is None:
            c2 = [f for f in P.by_name.get(n, []) if f.self_ty is not None and f.self_ty[0]=="adt" and f.self_ty[1].endswith("::"+a)]
            fn = c2[0]
        ex, outs = run_entry(P, fn)
        print(q, "paths", len(outs), "steps", ex.steps, "panics", len(ex.panics), "%.2fs" % ex.time)
        print(ex.unmodelled)
