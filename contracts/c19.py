from spec import *
from lowspec import bare
from tablespec import Table
CAL = "drdmannturb.spectra_fitting.calibration"
def contract(chk):
    C = chk.load(CAL)
    chk.fn("calibration.CalibrationProblem.load_coherence_data")
    chk.trust("pandas read_csv parses the whitespace separated table it is given; sort_values orders the rows of a complete table lexicographically by the keys; groupby(key)[column].first() lists one value per key in key order; index.get_loc finds the position of a key; iterrows visits every row once (contracts/tablespec.py)",
              "precondition: one row per present (separation index, frequency index) pair, the separation depends on its index alone, the frequency on its index alone")
    def load(complete):
        def body():
            ns, nf = nat("ns"), nat("nf"); rows = None
            if not complete:
                r = nat("rows"); rows = r.v; ctx.assume(lt(rows, mul(ns.v, nf.v)))
            calls = []
            def read_csv(path, *a, **k): calls.append((path, a, k)); return Table(ns.v, nf.v, complete, rows)
            ctx.State.hooks["read_csv"] = read_csv
            c = bare(C.CalibrationProblem); c.load_coherence_data("data.dat")
            concrete("the given file is read, once", len(calls) == 1 and calls[0][0] == "data.dat")
            arr_is("separations", c.coherence_spatial_seps, [ns.v], lambda p: S(uf("SEP", p)))
            arr_is("frequencies", c.coherence_frequencies, [nf.v], lambda p: S(uf("FREQ", p)))
            sh = c.coherence_shape; concrete("grid shape has two entries", len(sh) == 2); same("number of separations", sh[0], S(ns.v)); same("number of frequencies", sh[1], S(nf.v))
            for nm in "uvw":
                def want(p, q, nm=nm):
                    m = uf("coh_" + nm, p, q)
                    return S(m) if complete else S(ite(uf("present", p, q, sort="B"), m, NAN))
                arr_is("coherence " + nm, getattr(c, "coherence_" + nm), [ns.v, nf.v], want)
            spread = lambda t: app("floor", div(mul(const(t), sub(ns.v, ONE)), const(3)))
            ix, sp = c.coherence_plot_sep_indices, c.coherence_plot_separations
            if shape_is("selected indices", ix, (const(4),)) and shape_is("selected separations", sp, (const(4),)):
                for t in range(4):
                    same("selected index %d" % t, S(ix.elem((const(t),))), S(spread(t)))
                    same("selected separation %d" % t, S(sp.elem((const(t),))), S(uf("SEP", spread(t))))
        return body
    chk.case("complete table", load(True)); chk.case("table with missing rows", load(False))
if __name__ == "__main__": main("C19", contract)
