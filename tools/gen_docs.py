"""Writes properties.jsonl and MANIFEST.json from one table (developer tool;
no check runs it)."""

import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


prop("C01", "EMF, [H+] and pH conversions obey the Nernst equation and undo each other",
     "For any EMF, standard potential and temperature, [H+] is exp((EMF-EMF0)F/RT) with F = 96.4853365 kC/mol, R = 8.3144621 J/(K mol) and T = t + 273.15 K, and pH is its negative decimal logarithm. The reverse conversions from [H+] or pH to EMF return exactly the EMF that was converted, element by element for arrays, and leave their inputs unchanged. Shifting EMF0 by the potential difference computed for a factor f divides [H+] by f.",
     "all real EMF, EMF0, pH, positive [H+] and f, temperatures above absolute zero; scalars and arrays of any length",
     "tests convert a handful of values there and back; a change that cancels in the round trip, or that only shows at other temperatures, passes",
     ["calkulate/convert.py", "calkulate/constants.py"],
     [("Nernst conversions", "calkulate/convert.py:emf_to_h, emf_to_pH, h_to_emf, pH_to_emf, f_to_demf0"), ("constants", "calkulate/constants.py")])

prop("C02", "Dilution by the titrant conserves the amount of every dissolved substance",
     "After adding titrant of mass m to analyte of mass M, every total content c becomes c*M/(m+M), at every titration point, with the set of substances unchanged and the caller's data not modified; quantities that are not substance contents (such as salinity) are not diluted. With a sulfuric acid titrant the sulfate instead becomes (c*M + m*molinity)/(m+M) while all other totals are diluted. Renaming the totals for the equilibrium solver maps each substance to its own counterpart and puts zero for absent ones.",
     "all contents, titrant masses (including zero), analyte masses and molinities; any subset of substances; scalars and arrays",
     "tests cover one set of totals through whole titrations; one omitted or doubly diluted substance with small content changes nothing visible",
     ["calkulate/convert.py", "calkulate/interface.py"],
     [("dilution", "calkulate/convert.py:get_dilution_factor, dilute_totals, dilute_totals_pyco2, dilute_totals_H2SO4, dilute_totals_pyco2_H2SO4, totals_to_pyco2")])

prop("C03", "Titrant and analyte amounts in any supported unit become the same masses in kg",
     "Titrant given in ml, g or kg (any letter case) is converted to kg using, for ml, the given density or else the density of the stated titrant (HCl/NaCl mixture or H2SO4) at the stated molinities; any other unit or titrant is rejected. The analyte mass is used as given, and only when it is missing is it computed from the analyte volume with the seawater density at the salinity and the first temperature. A temperature override replaces every temperature; measurements and salinity pass through unchanged and the imported data are not modified.",
     "all amounts, densities, molinities, salinities, temperatures, unit spellings and option combinations; any number of titration points",
     "tests use ml with the default HCl density on a few files",
     ["calkulate/convert.py", "calkulate/density.py"],
     [("unit conversion", "calkulate/convert.py:amount_units")], over=("inputs", "configurations"))

prop("C04", "Densities follow the published equations and warn exactly outside their range",
     "Seawater density follows the Millero & Poisson (1981) one-atmosphere equation in temperature and salinity, the HCl/NaCl density the Dickson et al. (2007) mixture equation, and the H2SO4 density the quadratic fit, each for every input value. A warning is issued if and only if an input lies outside the equation's validity range (0-40 degC, salinity 0.5-43, H2SO4 molinity 0.05-3), and never changes the result.",
     "all temperatures, salinities and molinities, scalars and arrays, inside and outside the ranges and on their boundaries",
     "tests check one published check value each; a wrong high-order coefficient or boundary is invisible there",
     ["calkulate/density.py"],
     [("density equations", "calkulate/density.py:seawater_1atm_MP81, HCl_NaCl_25C_DSC07, H2SO4_25C_EAIM")])

prop("C05", "Speciation satisfies mass balance, equilibria and the alkalinity definition",
     "For every pH, set of total contents and equilibrium constants, the returned species satisfy their mass-action equilibria and sum to their totals, with only the species whose total (or constant) was supplied reported. Alkalinity equals the sum of proton acceptors minus donors relative to the zero level of protons at pK 4.5: OH + HCO3 + 2CO3 + B(OH)4 + HPO4 + 2PO4 - H3PO4 + H3SiO4 + NH3 + HS - H - HSO4 - HF plus the contributions of the two generic acids. On the total pH scale HSO4 is not counted separately, on the seawater scale neither HSO4 nor HF is, and any other scale option is rejected.",
     "all pH, non-negative totals, positive constants, every subset of supplied substances, three pH scales, scalars and arrays",
     "tests compare a few compositions with PyCO2SYS; they never isolate each species, subset and scale",
     ["calkulate/simulate.py"],
     [("speciation", "calkulate/simulate.py:alkalinity_components"), ("alkalinity sum", "calkulate/simulate.py:alkalinity, component_multipliers")])

prop("C06", "Computed alkalinity rises strictly with pH for a fixed composition",
     "For any fixed totals and equilibrium constants (positive constants, non-negative totals), the alkalinity computed on the free, total or seawater scale is a strictly increasing function of pH. Hence at most one pH corresponds to a given alkalinity, which is what makes solving for alkalinity and EMF0 well posed.",
     "all pairs of pH values, all compositions and constants",
     "monotonicity is a statement about all pairs of inputs; no test samples it",
     ["calkulate/simulate.py"],
     [("alkalinity equation", "calkulate/simulate.py:alkalinity_components, alkalinity")])

prop("C07", "Total salt contents respect user values, units, zeros and the salinity defaults",
     "Total contents given by the user in umol/kg are the ones used (in mol/kg), including an explicit zero; only total borate, fluoride and sulfate that are missing or null are estimated from salinity with the chosen borate option. Nutrients, DIC and generic acids enter in mol/kg, and those that are zero are treated as absent.",
     "all salinities, user values (zero, positive, null), option settings and every combination of given and missing totals",
     "tests give either all defaults or a few values; null/zero/given combinations per substance are not enumerated",
     ["calkulate/interface.py"],
     [("totals", "calkulate/interface.py:get_totals")], over=("inputs", "configurations"))

prop("C08", "Equilibrium constants respect user values and the selected options and pH scale",
     "Every equilibrium constant supplied by the user is used as given under its own name, and every one not supplied (or null) is the one PyCO2SYS gives for the temperature, zero pressure, the totals and the selected options on the selected pH scale. On the total pH scale the fluoride constant is converted from the free to the total scale with 1 + sulfate/bisulfate constant; on other scales it is not touched. No constant is attributed to another equilibrium.",
     "all temperatures, totals, options, pH scales and every subset of user-given constants, including null ones",
     "tests use default constants; a swapped or ignored user constant is not exercised",
     ["calkulate/interface.py"],
     [("constants", "calkulate/interface.py:get_k_constants, calk_to_pyco2__k_constants")], over=("inputs", "configurations"))

prop("C09", "Totals and constants through a titration use every setting, rightly diluted",
     "For a converted titration, the totals at each point are the analyte's totals diluted by the titrant added so far, and the constants are evaluated at each point's temperature. Each composition, constant and option setting reaches the step it belongs to, unknown settings change nothing, and the constants use the undiluted composition unless diluting for constants is requested, in which case they use the diluted one.",
     "all titrations, settings and combinations of settings",
     "tests run with few settings; a dropped option changes results by less than their tolerance",
     ["calkulate/core.py"],
     [("totals and constants", "calkulate/core.py:totals_ks")], over=("inputs", "configurations"))

prop("C10", "The Gran first guess is exact for strong-acid data and selects the right points",
     "The Gran function is (titrant + analyte mass) * exp(EMF*F/RT); points are selected from the first one above 10% of the maximum onwards (current rule) or between 10% and 90% of the maximum (legacy rule), any other rule being rejected. The alkalinity guess is the x-intercept of the regression line through the selected points times molinity times normality over the analyte mass, the EMF0 guess is the mean over the selected points of EMF - (RT/F) ln(excess acid content), and pH follows from it. For data generated by strong acid in excess of alkalinity these guesses return the alkalinity and EMF0 exactly; a warning is raised for fewer than three points or a correlation below 0.95.",
     "all titration data of any length, molinities, normalities and masses, both rules",
     "tests run the guess inside full solves where the final fit hides its errors",
     ["calkulate/core.py"],
     [("Gran estimators", "calkulate/core.py:gran_function, gran_alkalinity, gran_emf0s, gran_guesses")], over=("inputs", "configurations"))

prop("C11", "Solving pH titrations averages the point alkalinities inside the pH window",
     "With pH measurements (free scale), each point's alkalinity in umol/kg is 1e6*(alkalinity of the mixture at that pH + acid added per kg mixture)/(dilution factor), with acid = titrant mass * molinity * normality, and the reported alkalinity and standard deviation are those of the points with minimum <= pH <= maximum, both inclusive. The pH-Gran solver regresses (titrant + analyte mass)*10^-pH on titrant mass over the same window and reports intercept * molinity * normality / analyte mass in umol/kg. A window whose minimum is not below its maximum is rejected; inputs are returned as given and not modified.",
     "all pH titrations of any length, compositions, windows, molinities and normalities",
     "tests solve a few files with the default window and normality 1",
     ["calkulate/core.py"],
     [("pH solvers", "calkulate/core.py:solve_pH, solve_pH_gran")], over=("inputs", "configurations"))

prop("C12", "The EMF solver fits mass-balance residuals over exactly the requested pH window",
     "Solving an EMF titration returns the alkalinity and EMF0 from the least-squares fit of (mixture alkalinity at the EMF-derived pH - alkalinity * dilution + acid added * normality / mixture mass) over exactly the points whose pH, computed from the starting EMF0, lies within the inclusive window. Starting values are the Gran guesses unless given, all given settings (window, normality, Gran rule, initial values) also govern the second pass, which starts from the first pass's result, and solving once skips it. Alkalinity is reported in umol/kg with point alkalinities for all points, the pH from the final EMF0, and the standard deviation of the residuals; inputs are not modified.",
     "all EMF titrations, compositions, windows, initial values, rules and normalities",
     "tests fit a few files with default settings to loose tolerances, so dropped settings and window slips pass",
     ["calkulate/core.py"],
     [("EMF solver", "calkulate/core.py:solve_emf, _lsqfun_solve_emf")], over=("inputs", "configurations"))

prop("C13", "Calibrating finds the molinity at which solving returns the certified alkalinity",
     "In every mode (EMF, pH, pH-Gran) the calibrated titrant molinity is the root of (alkalinity solved with that molinity and the same data and settings) - certified alkalinity, starting from the given first guess. Every setting accepted by solving (window, initial values, double pass, Gran rule, normality, titrant-borne totals) has the same effect in calibration, so solving with the calibrated molinity gives back the certified value whenever the fit converges.",
     "all titrations, certified values, modes and settings",
     "tests calibrate and solve a few files with default settings only",
     ["calkulate/core.py"],
     [("calibration", "calkulate/core.py:calibrate_emf, calibrate_pH, calibrate_pH_gran, _lsqfun_calibrate_*")], over=("inputs", "configurations"))

prop("C14", "Titrant-borne totals are added in proportion and calibration leaves no residue",
     "A titrant carrying an equilibrating substance adds titrant mass * (molinity - previously added molinity) * factor / mixture mass to exactly that total (absent ones counting as zero) and to no other, so adding and then removing restores the totals and adding in two steps equals adding at once. Calibration leaves the caller's totals, constants and data as they were (to rounding), however many residual evaluations it makes and also when it fails; names that are not titrant totals are rejected.",
     "all masses, molinities, factors and totals; any number and order of additions and residual evaluations",
     "tests exercise sulfate additions with one factor",
     ["calkulate/core.py"],
     [("titrant totals", "calkulate/core.py:add_titrant_totals, _lsqfun_calibrate_*")], over=("inputs", "histories"))

prop("C15", "File-level solving and calibrating runs every step of the mode with all settings",
     "Solving or calibrating a titration file equals reading the file, converting units, computing totals and constants, adding titrant-borne totals (before solving) and running the solver of the chosen mode on the file's measurements, with every recognised setting reaching the step it belongs to. Mode names are case-insensitive: 'emf' treats measurements as EMF, 'pH_adjust' converts them to EMF with EMF0 = 0 and starts from EMF0 = 0, 'pH' and 'pH_gran' use them as pH, and anything else is rejected. A file path is prepended to the file name, and settings unknown to calibration are reported and ignored.",
     "all files, modes and combinations of settings",
     "tests use few settings per mode; a setting dropped or misrouted for one mode is not noticed",
     ["calkulate/files.py", "calkulate/core.py"],
     [("file-level pipeline", "calkulate/files.py:solve, calibrate, keys_*")], over=("inputs", "configurations"))

prop("C16", "Setting precedence: a non-null row value beats a keyword beats the default",
     "When a dataset is calibrated or solved, each setting takes the value in the titration's own row if that is present and not null, otherwise the keyword value, otherwise the documented default. Old-style settings (grouped file-reading options, the pH range pair, the old name for the file type) act exactly like their current counterparts with the same precedence, for that row only. Unrecognised keywords only cause a warning.",
     "all rows, keyword sets and null patterns",
     "tests set a value in one place at a time",
     ["calkulate/meta.py", "calkulate/dataset.py"],
     [("selection", "calkulate/meta.py:_get_kwargs_for, _get_kwarg_keys"), ("old names", "calkulate/dataset.py:_backcompat"), ("preparation", "calkulate/dataset.py:prepare")],
     over=("inputs", "configurations"))

prop("C17", "Batch molinity is the mean over exactly the batch's good calibrated references",
     "After calibrating a dataset (with calibrate, or with calkulate, which calibrates and then solves), each titration's titrant molinity is the arithmetic mean of the individually calibrated molinities of the titrations in the same analysis batch that are marked good references and were successfully calibrated, with their sample standard deviation and count as batch statistics. Titrations without a certified value, in other batches, marked bad or failed do not contribute, and a batch without any has no molinity; a titration with no batch label, in a dataset that has labels, has none either. Without batch labels the whole dataset is one batch, and without reference marks every calibrated titration counts.",
     "all datasets, batch labellings, reference marks and failure patterns",
     "tests use one or two batches with all references good",
     ["calkulate/dataset.py"],
     [("batch averaging", "calkulate/dataset.py:get_group_calibration, get_batches, calibrate, calibrate_row")], over=("inputs", "histories"))

prop("C18", "Each titration in a dataset is independent; failures leave blank results",
     "Every row's results depend only on that row, the keywords and (for calibration) its batch, not on row order, index labels, other rows' contents or failures, or results left in the table by an earlier run. A row whose file is marked bad, has no molinity (or certified value, when calibrating) or whose processing fails gets blank results (zero points, everything else missing) and the others are unaffected. Result columns hold the row's alkalinity, its standard deviation and point count over the window, EMF0, Gran guesses in umol/kg and mV, initial pH and temperature, and the offset from the certified value; other input columns and the caller's keywords are kept as they were.",
     "all datasets, row orders, index labels, failure patterns and repeated runs",
     "tests run fixed datasets in which every file succeeds",
     ["calkulate/dataset.py"],
     [("row processing", "calkulate/dataset.py:solve, solve_row, calibrate_row, add_solve_results")], over=("inputs", "histories", "fault_sequences"))

prop("C19", "Missing salt contents in a dataset are filled from salinity without overwriting",
     "Before processing, each missing total sulfate, borate or fluoride cell of a dataset is filled, row by row, with the value PyCO2SYS derives from that row's salinity and borate option, and every value already present (including zero) is kept. The borate option of a row is its own value, else the keyword, else the default; analyte mass and file-good columns are only created when absent, and a dataset with neither analyte mass nor volume is rejected.",
     "all datasets and null patterns",
     "tests have either complete or completely missing columns",
     ["calkulate/dataset.py"],
     [("filling", "calkulate/dataset.py:get_total_salts, prepare")], over=("inputs", "configurations"))

prop("C20", "A single-titration object agrees with the dataset result for the same row",
     "An object made from a dataset row reports the same solved alkalinity, EMF0, point selection and pH as solving that row in the dataset (null cells meaning 'not given'), with extra keywords overriding the row, and leaves the row it was made from unchanged. Its table lists, for every titration point, the titrant mass, measurement, pH, selection, totals, constants, dilution factor, mixture species, and the alkalinity expected from the acid added, consistent with the solved alkalinity, normality and analyte mass (also when that came from a volume).",
     "all rows, null patterns, modes and overriding keywords",
     "tests only construct the object for one complete dataset",
     ["calkulate/classes.py"],
     [("titration object", "calkulate/classes.py:Titration, to_Titration")], over=("inputs", "configurations"))

prop("C21", "A simulated titration is an exact solution of the solver's own equations",
     "Simulated titrant masses run from start (inclusive) to stop (exclusive) in the given steps, every total content is the undiluted one times the dilution factor, and mixture alkalinity is (analyte mass * alkalinity - titrant mass * molinity)/(mixture mass). The EMF is the Nernst potential of the PyCO2SYS free-scale pH for that alkalinity and DIC, and the returned totals and constants are those of the same calculation in mol/kg, so that solving the simulated data with its own totals and constants recovers the alkalinity and EMF0. Without DIC loss DIC is diluted only; with it, each step dilutes the current DIC and subtracts coefficient * (fCO2 - air fCO2) * step.",
     "all alkalinities, DIC, masses, molinities, temperatures, salinities and options",
     "tests simulate a few compositions and solve them to tolerance",
     ["calkulate/simulate.py"],
     [("simulator", "calkulate/simulate.py:_titration")], over=("inputs", "configurations"))

prop("C22", "The DIC-loss model follows its stated difference equation and fit",
     "In the fitted part DIC starts at the initial value in umol/kg and each step dilutes it and subtracts coefficient * delta-fCO2 * step; the forecast continues from the last fitted value with delta-fCO2 recomputed from DIC, pH and the constants. The coefficient is the least-squares fit of the fitted part (pH at or above the split) to the DIC-loss data, missing losses counting as zero and missing fCO2 as the maximum. Results are interpolated to the titration points, DIC in mol/kg and fCO2 in uatm, and the caller's arrays are not modified.",
     "all titrations, loss data with gaps, coefficients and split pH",
     "the model has no active test",
     ["calkulate/loss.py"],
     [("loss model", "calkulate/loss.py:dic_loss_model_fitted, dic_loss_model_future, get_fCO2_from_dic_pH, get_dic_loss_hires, get_dic_loss")])

prop("C23", "Written titration data read back equal the data to the written precision",
     "A titration file written from titrant amounts, measurements and temperatures and read back with the default reader gives the same number of points in the same order, each value equal to the original within half a unit of the written last digit, each in its own column. The reader takes each quantity from the requested column after skipping the requested header lines, whatever the column order and delimiter. An existing file is not overwritten by default, and an unknown file type is reported by name and read with the default reader.",
     "all data of any length, formats, column layouts and delimiters",
     "tests write and read one file with the default layout",
     ["calkulate/read/titrations.py"],
     [("writer", "calkulate/read/titrations.py:write_dat"), ("reader", "calkulate/read/titrations.py:read_dat, read_dat_genfromtxt, file_types")], over=("inputs", "configurations"))

prop("C24", "Report-style titration files yield exactly the rows of their data block",
     "From a PC-LIMS report, exactly the lines of the first contiguous block of numeric tab-separated rows are read, negative readings included, with titrant amount, measurement and temperature from the requested columns. From a German Tiamo export, exactly the rows of the Gran block (from its column names to the end of the file) are read and the starting volume recorded in the report is added to every volume, with pH and temperature unchanged. From an organic-alkalinity Excel sheet, the acid, base, EMF and temperature columns below the first line are returned unchanged and in that order.",
     "all report contents: headers and footers, block lengths, values of either sign, column choices",
     "tests read one or two stored files",
     ["calkulate/read/titrations.py"],
     [("PC-LIMS", "calkulate/read/titrations.py:read_dat_pclims"), ("Tiamo", "calkulate/read/titrations.py:read_tiamo_de, _read_tiamo_de_df"), ("Excel", "calkulate/read/titrations.py:read_dat_orgalk_excel")])

prop("C25", "VINDTA .dbs import names files, certified values and usable rows correctly",
     "Each row of a .dbs file keeps its data and gets the analysis time from its month/day/year date and time (missing if absent). Bottle rows get the file name made from their station, cast, niskin, depth and bottle in the requested format, reference rows the name made from their batch and bottle and their certified alkalinity, and all other rows are marked as not usable. The analyte amount is the given mass if there is one, otherwise the given volume, and the file path is added when given.",
     "all .dbs contents: run types, numbers, dates, name formats and options",
     "tests read one or two stored files",
     ["calkulate/read/metadata.py"],
     [(".dbs import", "calkulate/read/metadata.py:read_dbs, dbs_datetime, get_VINDTA_filenames, add_func_cols")], over=("inputs", "configurations"))

prop("C26", "Plotting never changes the data being plotted",
     "Drawing any figure of a dataset or of a single titration leaves the dataset, the titration's table and its results exactly as they were, so results do not depend on which figures were drawn and in which order.",
     "all datasets, titrations, figure options and orders of drawing",
     "no test draws a figure and compares the data afterwards",
     ["calkulate/plot/__init__.py", "calkulate/plot/titration.py"],
     [("plots", "calkulate/plot/__init__.py, calkulate/plot/titration.py")], over=("inputs", "histories"))

prop("C27", "Metadata tables enter and leave a dataset unchanged",
     "Reading a metadata table from a CSV, delimited, fixed-width or Excel file or the clipboard gives a Dataset with exactly the rows, columns, labels and values that the pandas function of the same name gives for the same source and options, and converting a Dataset to pandas gives an ordinary DataFrame with the same contents that can be changed without changing the Dataset.",
     "all tables and reader options",
     "tests read a stored file or two with fixed options",
     ["calkulate/read/metadata.py", "calkulate/classes.py"],
     [("readers", "calkulate/read/metadata.py:read_csv, read_table, read_fwf, read_excel, read_clipboard"), ("conversion", "calkulate/classes.py:Dataset.to_pandas")],
     over=("inputs", "configurations"))


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    import importlib

    props = importlib.import_module("contracts.props")
    checks = []
    for i in ids:
        if i not in props.PROPS:
            continue
        info = props.INFO[i]
        checks.append(dict(
            property=i,
            quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
            technique=info.get("technique", "contract-based deductive verification: obligations generated by symbolic execution of /repo's source, discharged by rational-function normal form, z3 and cvc5"),
            level=info["level"],
            level_note=info["note"],
        ))
    na = [dict(property=i, reason=props.NOT_APPLICABLE[i]) for i in ids if i not in props.PROPS]
    man = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --selftest", checks=checks, not_applicable=na,
               notes="No hooks: the checks execute /repo's source text as it is. Known findings: /verif/known_findings.txt. See DESIGN.md.")
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
