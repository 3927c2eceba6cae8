"""Which contracts decide which property."""

ASSUMED_COMMON = [
    "floating-point arithmetic is treated as real arithmetic; decimal literals are read exactly; coefficients agreeing to 1e-12 relative are equal",
    "divisions, logarithms and square roots met on a path are assumed defined (non-zero divisor, positive argument)",
    "dependencies behave as their stand-ins in /verif/vc/shims.py and /verif/vc/pyco2_shim.py say (cross-checked by evaluating the same contracts with the real libraries on the concrete inputs of every run)",
]

SUBSETS = "optional settings are given in these combinations: none, all, each alone, each missing, and two halves (not all 2^n subsets)"
FRAMES = "pandas tables by the assumed contracts of /verif/vc/frames.py: a table of any length is a generic row, apply(axis=1) maps it, groupby/apply/where/loc as documented"

PROPS = {
    "C01": ["nernst", "nernst_inverse", "f_to_demf0"],
    "C02": ["dilute_totals", "dilute_totals_arrays", "dilute_totals_pyco2", "totals_to_pyco2", "dilute_H2SO4"],
    "C03": ["amount_units", "amount_units_rejects"],
    "C04": ["density_seawater", "density_hcl", "density_h2so4"],
    "C05": ["speciation", "speciation_rejects", "alkalinity_sum"],
    "C06": ["alkalinity_monotone"],
    "C07": ["get_totals"],
    "C08": ["get_k_constants"],
    "C09": ["totals_ks"],
    "C10": ["gran_function", "gran_alkalinity", "gran_rejects", "gran_emf0s", "gran_guesses", "gran_exact"],
    "C11": ["solve_pH", "solve_pH_gran", "solve_rejects_window"],
    "C12": ["solve_emf", "solve_rejects_window"],
    "C13": ["calibrate_emf", "calibrate_pH", "calibrate_pH_gran"],
    "C14": ["add_titrant_totals", "add_titrant_rejects", "calibrate_rejects", "calibrate_emf", "calibrate_pH", "calibrate_pH_gran"],
    "C15": ["file_solve", "file_calibrate", "file_mode_rejected"],
    "C16": ["kwargs_for", "solve_row_settings", "calibrate_row_settings", "known_keywords", "prepare"],
    "C17": ["group_calibration", "calibrate_table"],
    "C18": ["solve_row_results", "calibrate_row_results", "solve_table", "calibrate_table"],
    "C19": ["total_salts", "prepare", "prepare_rejects"],
    "C20": ["titration_settings", "titration_object", "titration_agrees", "titration_printed"],
    "C21": ["simulated_titration", "simulated_dic_loss"],
    "C22": ["loss_fitted", "loss_fCO2", "loss_future", "loss_hires", "loss_points"],
    "C23": ["write_read", "write_text", "write_existing", "read_columns", "read_dispatch"],
    "C24": ["tiamo", "pclims", "orgalk", "read_dispatch"],
    "C25": ["dbs_rows"],
    "C26": ["plots_of_datasets", "plots_of_titrations"],
    "C27": ["metadata_tables"],
}
PROOF = "Every clause of the contracts is discharged for all inputs satisfying the preconditions, on all paths, arrays of any length. Floating point is treated as real arithmetic; dependencies by assumed contracts. The same contracts are also evaluated on the real package (CPython, real libraries) on sampled inputs."
INFO = {
    "C01": dict(level="proof", note=PROOF, assumptions=["temperature above absolute zero, [H+] and f positive (preconditions)"]),
    "C02": dict(level="proof", note=PROOF, assumptions=["titrant mass non-negative, analyte mass positive (preconditions)"]),
    "C03": dict(level="proof", note=PROOF, assumptions=["density functions replaced by their own contracts (C04)"]),
    "C04": dict(level="proof", note=PROOF, assumptions=[]),
    "C05": dict(level="proof", note=PROOF, assumptions=["constants positive, totals non-negative (preconditions)"]),
    "C06": dict(level="proof", note=PROOF, assumptions=["constants positive, totals non-negative (preconditions)"]),
    "C07": dict(level="proof", note=PROOF, assumptions=["PyCO2SYS.salts.assemble by assumed contract"]),
    "C08": dict(level="proof", note=PROOF, assumptions=["PyCO2SYS.equilibria.assemble by assumed contract"]),
    "C09": dict(level="proof", note=PROOF, assumptions=[SUBSETS, "callees replaced by their own contracts (C02, C07, C08) where they are other properties' subject"]),
    "C10": dict(level="proof", note=PROOF, assumptions=["scipy.stats.linregress by assumed contract (least-squares slope, intercept and correlation)"]),
    "C11": dict(level="proof", note=PROOF, assumptions=["scipy.stats.linregress by assumed contract", "the alkalinity of the mixture is interface.alkalinity's contract (C05)"]),
    "C12": dict(level="proof", note=PROOF, assumptions=["scipy.optimize.least_squares by assumed contract: its result is an uninterpreted function of (residual function, start, options); convergence is not proved"]),
    "C13": dict(level="proof", note=PROOF, assumptions=["scipy.optimize.least_squares by assumed contract; convergence is not proved"]),
    "C14": dict(level="proof", note=PROOF, assumptions=["real arithmetic: 'restored' means equal as real numbers"]),
    "C15": dict(level="proof", note=PROOF, assumptions=[SUBSETS, "the steps (read, convert, totals, constants, solvers) are replaced by uninterpreted functions of their arguments; their own contracts are C02-C14, C23, C24"]),
    "C16": dict(level="proof", note=PROOF, assumptions=[SUBSETS, FRAMES, "files.solve and files.calibrate are replaced by recorders of their arguments (their own contracts are C15)"]),
    "C17": dict(level="proof", note=PROOF, assumptions=[FRAMES, "the per-row calibration and solution are uninterpreted functions of the row and settings (their own contracts are C16 and C18)"]),
    "C18": dict(level="proof", note=PROOF, assumptions=[SUBSETS, FRAMES]),
    "C19": dict(level="proof", note=PROOF, assumptions=[FRAMES, "PyCO2SYS.salts.assemble by assumed contract"]),
    "C20": dict(level="proof", note=PROOF, assumptions=[SUBSETS, FRAMES, "files.solve is an uninterpreted function of its arguments (its own contract is C15); PyCO2SYS.sys by assumed contract (an uninterpreted function of its arguments)", "null keywords are not considered"]),
    "C21": dict(level="proof", note=PROOF, assumptions=["PyCO2SYS.sys by assumed contract (an uninterpreted function of its arguments)"]),
    "C22": dict(level="proof", note=PROOF, assumptions=["scipy.optimize.least_squares, scipy.interpolate.pchip_interpolate and numpy.median by assumed contracts (uninterpreted functions of their arguments); convergence is not proved", "there is at least one fCO2 value, and points on both sides of the split (preconditions)"]),
    "C23": dict(level="proof", note=PROOF, assumptions=["text files by the assumed contracts of /verif/vc/textio.py: a written line is its format applied to its values, a number written with k decimals reads back within half a unit of the k-th; numpy.genfromtxt gives the cells of each line after the header", "formats .0f to .9f, .kg and .ke as chosen by the contract; finite values"]),
    "C24": dict(level="proof", note="Tiamo files: all block positions, block lengths and values. PC-LIMS reports of any number of lines: the scan is explored over all its control states in lockstep with the contract's own one, the row pattern decided by automata against the languages of rows and of other lines, for 2 to 8 and 12 columns. If the scan is rewritten outside the verifier's subset, 4500 sampled reports on the real code stand in, labelled BOUNDED. " + PROOF, assumptions=["text files by the assumed contracts of /verif/vc/textio.py and /verif/vc/scan.py; pandas.read_csv gives the table below the skipped lines", "PC-LIMS: a row is n_cols tab-separated decimal numbers; another line has fewer fields, or a character other than a digit, point or minus in one of its first n_cols - 1 fields (precondition: lines such as '..' or '1-2' in every field are neither)"]),
    "C25": dict(level="proof", note=PROOF, assumptions=["a .dbs table of any length by a generic row (/verif/vc/rows.py): read_table gives the cells below the names, apply(axis=1) and iterrows visit every row", "numpy.datetime64 and matplotlib.dates.date2num are uninterpreted functions of the text and time", "bottle rows have their station, cast, niskin and depth; reference rows their batch (preconditions)", "seven run types, four file name formats"]),
    "C26": dict(level="proof", note="Frame condition: every figure function is executed on opaque objects on all paths; no path stores into the caller's objects or into anything that may share their storage. The same functions are run with the real matplotlib on real datasets and titrations and the data compared afterwards.", assumptions=["matplotlib does not change what it is given to draw; numpy, scipy and pandas functions write only through `out`, `inplace` and the functions listed in /verif/vc/effects.py", "a condition met repeatedly on one path is always true, always false or alternating"]),
    "C27": dict(level="proof", note=PROOF, assumptions=["pandas' readers by assumed contract (uninterpreted functions of their arguments); pandas.DataFrame(table) is a copy of the table (pandas 3, evaluated on the real library)", "nine sets of options for each reader"]),
}
NOT_APPLICABLE = {f"C{i:02d}": "check under construction" for i in range(1, 27) if f"C{i:02d}" not in PROPS}
