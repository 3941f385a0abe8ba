from common import *
import numpy as np
from drdmannturb.spectra_fitting.calibration import CalibrationProblem
def table(rng, missing):
    ns, nf = rng.randrange(1, 8), rng.randrange(1, 8)
    if missing: ns, nf = max(ns, 2), max(nf, 2)
    si = np.cumsum([rng.choice([0, 1, -3])] + [rng.choice([1, 1, 1, 2, 5]) for _ in range(ns - 1)]); fi = np.cumsum([rng.choice([0, 1, 4])] + [rng.choice([1, 1, 1, 3]) for _ in range(nf - 1)])
    sep = np.array([rng.uniform(0, 100) for _ in range(ns)]); fr = np.array([rng.uniform(0, 2) for _ in range(nf)])
    if rng.random() < .7: sep.sort(); fr.sort()
    sep, fr = sep.round(4), fr.round(6)
    M = np.random.uniform(0, 1, (3, ns, nf)).round(7); P = np.ones((ns, nf), bool)
    if missing:
        for _ in range(rng.randrange(1, ns * nf // 2 + 1)): P[rng.randrange(ns), rng.randrange(nf)] = False
        for i in range(ns):
            if not P[i].any(): P[i, rng.randrange(nf)] = True
        for j in range(nf):
            if not P[:, j].any(): P[rng.randrange(ns), j] = True
    rows = [(si[i], fi[j], sep[i], fr[j], M[0, i, j], M[1, i, j], M[2, i, j]) for i in range(ns) for j in range(nf) if P[i, j]]
    o = rng.choice(["raw", "freq", "shuffle", "shuffle", "rev"])
    if o == "freq": rows.sort(key=lambda r: r[1])
    elif o == "shuffle": rng.shuffle(rows)
    elif o == "rev": rows.reverse()
    with open("coh.dat", "w") as f:
        if rng.random() < .5: f.write("# measured coherence\n")
        f.write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\n")
        for r in rows: f.write(rng.choice([" ", "   ", "\t"]).join([str(int(r[0])), str(int(r[1]))] + ["%.7f" % x for x in r[2:]]) + "\n")
    note(ns=ns, nf=nf, order=o, present=P.astype(int).tolist(), sep_idx=si.tolist(), freq_idx=fi.tolist())
    return ns, nf, sep, fr, np.where(P, M, np.nan)
def verify(ns, nf, sep, fr, M):
    c = CalibrationProblem.__new__(CalibrationProblem); c.load_coherence_data("coh.dat")
    close(np.asarray(c.coherence_spatial_seps), sep, what="separations"); close(np.asarray(c.coherence_frequencies), fr, what="frequencies")
    check(tuple(c.coherence_shape) == (ns, nf), "grid shape", c.coherence_shape)
    for a, nm in enumerate("uvw"): close(np.asarray(getattr(c, "coherence_" + nm)), M[a], what="coherence " + nm)
    ix = [(t * (ns - 1)) // 3 for t in range(4)]
    check(list(map(int, c.coherence_plot_sep_indices)) == ix, "selected separations", c.coherence_plot_sep_indices); close(np.asarray(c.coherence_plot_separations), sep[ix], what="selected separations")
@test(n=25)
def complete(rng): verify(*table(rng, False))
@test(n=25)
def gaps(rng): verify(*table(rng, True))
if __name__ == "__main__": main()
