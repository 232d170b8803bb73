"""Registry: property -> model-checking configurations and conformance suites."""
PROPS = {}
NOT_CLAIMED = {}


def P(pid, suites, mc=(), assumptions=(), note=""):
    PROPS[pid] = dict(suites=list(suites), mc=list(mc), assumptions=list(assumptions), note=note)


def S(driver, module, quick, thorough, **kw):
    d = dict(driver=driver, module=module, quick=quick, thorough=thorough)
    d.update(kw)
    return d


B1 = ("Every recorded execution (fit, table, transform) over generated samples with known candidate splits is "
      "judged by the TLA+ pipeline specification; optimality is decided by enumerating every merging. Bounds: at most "
      "9 pre-bins, integer weights.")
PRE = S("b2", "V_Pre1D", 500, 6000)
MCS = S("b1", "V_Bin1D", 900, 9000, scenario="MC_Bin1D")
MCB = dict(module="MC_Bin1D", cfg="MC_Bin1D.cfg", cfg_thorough="MC_Bin1D_T.cfg", workers=6, emits=1)
MCN = (" MC_Bin1D enumerates every world of 4 (thorough: 5) pre-bins over 4 profiles, every trend and 13 option sets, checks the "
       "relations between trends, limits, mirror images and mergings on the specification, and replays the worlds into the code.")
CAT = S("c1", "V_Cat1D", 600, 6000)
P("C01", [S("b1", "V_Bin1D", 1200, 12000), CAT, PRE], note=B1)
P("C02", [S("b1", "V_Bin1D", 800, 8000), CAT, PRE], note=B1)
P("C03", [S("b1", "V_Bin1D", 1600, 16000), CAT, PRE, MCS], mc=[MCB], note=B1 + MCN)
P("C04", [S("b1", "V_Bin1D", 1600, 16000), CAT, PRE, MCS], mc=[MCB], note=B1 + MCN)
P("C05", [S("b1", "V_Bin1D", 1600, 16000), CAT, PRE, MCS], mc=[MCB], note=B1 + MCN)
P("C06", [S("b1", "V_Bin1D", 1600, 16000), CAT, PRE], note=B1)
P("C07", [S("b1", "V_Bin1D", 1000, 8000), CAT, PRE], note=B1 + " Logarithms are table-driven fixed point (error below 1e-5).")
P("C23", [dict(PRE, quick=1000), S("m1", "V_MDLP", 1000, 10000)], note=B1)
CONT = S("k1", "V_Cont1D", 900, 10000)
CCAT = S("kc1", "V_CCat", 500, 6000)
P("C08", [CONT, CCAT], note=B1)
P("C09", [dict(CONT, quick=1400), CCAT], note=B1)
P("C25", [S("c1", "V_Cat1D", 1200, 10000), CCAT], note=B1)
P("C10", [S("mc1", "V_Multi", 1000, 10000)], note=B1)
P("C11", [S("d2", "V_Bin2D", 900, 9000)], note="The specification cuts the plane into the candidate grid, enumerates every admissible tiling of up to 12 cells, and recomputes rows, limits, trends, pairs of adjacent bins and transformed values.")
P("C12", [S("sb1", "V_Scen", 700, 8000)], note="One merging for all scenarios: feasibility in every scenario and the "
  "weighted objective are decided by enumerating every merging; scenario and aggregate tables are recomputed from the records.")
P("C13", [S("pw1", "V_PW", 400, 4000)], note="The fitted curve is judged as a piecewise polynomial in fixed-point arithmetic: "
  "counts, value, clipping, trend, continuity, bounds and the optimality conditions of least squares.")
P("C14", [S("s1", "V_Sketch", 700, 8000), S("s1", "V_Sketch", 500, 6000, scenario="MC_Sketch")],
  mc=[dict(module="MC_Sketch", cfg="MC_Sketch.cfg", cfg_thorough="MC_Sketch_T.cfg", workers=4, emits=1)], note=B1)
P("C15", [S("g1", "V_GK", 3000, 40000), S("g1", "V_GK", 2000, 20000, scenario="MC_GK")],
  mc=[dict(module="MC_GK", cfg="MC_GK.cfg", cfg_thorough="MC_GK_T.cfg", workers=6, emits=1)],
  note="The summary algorithm is specified in GK.tla and model checked for every insertion order and merge history "
       "within small bounds; longer recorded histories of the implementation are judged against the multiset of values received.")
P("C16", [S("p1", "V_Process", 400, 4000), S("p1", "V_Process", 150, 2000, scenario="MC_Process")],
  mc=[dict(module="MC_Process", cfg="MC_Process.cfg", cfg_thorough="MC_Process_T.cfg", workers=4, emits=1)],
  note="The abstract process remembers which binning stands for which variable; every observation must follow from the "
       "separately fitted binnings and the selection rule.")
P("C17", [S("p2", "V_ProcSketch", 400, 4000)],
  note="The process is specified as the product of stand-alone sketches (C14) and the selection rule of BinProcess.")
P("C18", [S("sc1", "V_Score", 300, 3000)], note="Scaling, intercept shift and rounding are specified as affine maps of "
  "the recorded linear model; every scored record and every table row is judged.")
P("C19", [S("mo1", "V_Monitor", 300, 3000)], note="Every reported table is a function of the two samples, specified record by record.")
P("C20", [S("cf1", "V_CF", 200, 2000)], note="Admissible counterfactuals are enumerated by the specification, so both "
  "the validity of what is returned and the truth of 'infeasible' are decided.")
P("C28", [S("cf1", "V_CF", 200, 2000)], note="The specification enumerates every admissible tuple of counterfactuals, evaluates every "
  "requested objective on it and compares the returned tuple with the best one, by weighted sum or by priority.")
P("C26", [S("mt1", "V_Metrics", 1800, 20000)], note="Metrics and curves are specified as functions of the multiset of "
  "(target, score) pairs, so ties and record order cannot matter.")
P("C27", [S("pl1", "V_Plot", 220, 2400)], note="The figure is a function of the table: rows shown, positions, heights, "
  "stacking, marks and metric values are derived by the specification from the rows and the plot arguments.")
P("C24", [S("ot1", "V_Outlier", 1500, 16000)], note="Detector bounds are exact rational functions of integer samples; binnings "
  "with a detector are compared with the same binning of the sample without the flagged records and with the records themselves.")
P("C21", [S("lf2", "V_Life", 350, 4000)], note="Saving, loading, copying and table files are steps of the life-cycle machine "
  "that keep the history; the loaded object must answer every query like a fresh object fitted on that history.")
P("C22", [S("lf1", "V_Life", 420, 4000), S("lf1", "V_Life", 210, 2500, scenario="MC_Life")],
  mc=[dict(module="MC_Life", cfg="MC_Life.cfg", cfg_thorough="MC_Life_T.cfg", workers=4, emits=1)],
  note="Every step of a recorded life cycle of two objects is judged against the "
  "abstract life-cycle machine; answers are compared with those of fresh objects.")
