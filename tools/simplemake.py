import cratermaker as cm
def make(d, **kw):
    kw = {**dict(simdir=d, surface="icosphere", gridlevel=2, rng_seed=7, ask_overwrite=False, reset=True), **kw}
    return cm.Simulation(**kw)
