"""drive.py suite n shard nshards seed tier out scn only : perform scenarios on the real code, record the trace."""
import sys, os, json, zlib, warnings, random
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')


def main():
    suite, n, shard, nsh, seed, tier, out, scn, only = sys.argv[1:10]
    n, shard, nsh, seed = int(n), int(shard), int(nsh), int(seed)
    from plan import SUITES
    import importlib
    sp = SUITES[suite]
    import meshmagick.mesh           # noqa: the library must import
    mod = importlib.import_module(sp['driver'])
    fn = getattr(mod, sp['fn'])
    scns = json.load(open(scn)) if scn != '-' else None
    rec = mod.recorder(sp)
    meta = {}
    ks = [int(only)] if only != '-' else range(shard, n, nsh)
    for k in ks:
        rng = np.random.default_rng([seed, zlib.crc32(suite.encode()), k])
        random.seed(int(rng.integers(1 << 30)))
        np.random.seed(int(rng.integers(1 << 30)))
        sc = None
        if scns is not None:
            sc = scns[str(k)] if str(k) in scns and only != '-' else scns[str((k * 1000003 + seed) % len(scns))]
        s0 = rec.s
        fn(rec, rng, k, sc, tier)
        for s in range(s0 + 1, rec.s + 1):
            meta[s] = dict(k=k, tag=rec.meta.get(s, {}).get('tag'), scn=sc)
    with open(out, 'w') as f:
        json.dump(rec.events, f)
    with open(out + '.meta', 'w') as f:
        json.dump(dict(nevents=len(rec.events), scenarios=meta), f)


main()
