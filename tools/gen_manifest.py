#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the reasons below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOW = "path-sensitive interprocedural value-flow analysis over Clang's type-checked AST"
TECH = {
    "H01": ("ownership analysis: acquire-to-owner value flow on every path, special-member typestate",
            "Decides all paths of all functions of the HDF5 and GDAL wrapper layers (loops by zero or one symbolic iteration). Relies on the HDF5 manual for which call releases what."),
    "H02": ("typestate analysis of status values: every fallible call's failure is excluded by a branch on every normally returning path",
            "All HDF5 calls in the project on all paths; queries whose failure cannot lose data are listed with reasons."),
    "H03": (FLOW + ": selection and transfer arguments of every overload",
            "Arguments of every select/transfer call as terms over the parameters; HDF5 itself is trusted."),
    "H04": ("effect analysis over the call graph: reader functions cannot reach mutating library calls",
            "Whole call graph of the data model; virtual and function-pointer calls resolved to all candidates."),
    "H05": ("table extraction from dispatch paths and traits, compared as bijections", "All paths of the translation functions, all trait specialisations."),
    "H06": (FLOW + ": object, name and type arguments of attribute calls", "All attribute reads and writes instantiated in the project."),
    "H07": (FLOW + ", evaluated for each state a name can be in; callbacks of iterations; case analysis of collections", "All existence queries, listings, collections and navigation functions."),
    "M01": (FLOW + ": names and kinds of created parts matched with names and kinds of opened parts", "All create functions and opening constructors of the data model."),
    "M02": ("table extraction: setting/text tables are bijections; save and load use the same table and name", "All tables, save and load functions."),
    "M03": (FLOW + ": arguments of resize, create and count updates on all paths of the expand functions", "All expand functions of values."),
    "M04": (FLOW + ": type arguments passed on by constructors, accessors and factories", "All array, value and property classes."),
    "M05": (FLOW + ": events of the creating functions per combination of parts asked for", "All overloads."),
    "M06": (FLOW + ": check-before-create on every adding path, coverage of all collections by the queries", "All adding and querying members."),
    "M07": ("structural derivation of the comparison relation from the operator bodies, checked against lawful forms", "All comparison operators of time and range classes."),
    "M08": (FLOW + ": path conditions selecting value kinds and links", "All dispatch functions of domains and property groups."),
    "M09": (FLOW + ": value, type and list of every call that sets or asks for a fill value, on all paths that create arrays", "All functions that take or give no-data values, for each of 11 element types."),
    "V01": ("call-graph reachability and path conditions: every part is visited unconditionally", "The validator's functions on all paths."),
    "V02": (FLOW + ": path conditions under which an error is added", "Each required comparison in the validator."),
    "V03": (FLOW + ": path conditions of throwing, data flow of issues", "All paths of the assertion and issue functions."),
    "P01": ("table extraction from the type-checked binding calls", "All enumeration bindings."),
    "P02": ("dispatch-table extraction from path conditions and template arguments", "All type dispatch functions of the binding."),
    "P03": (FLOW + ": bounds and shape facts on every path to a buffer access", "The indexing functions of the array binding."),
    "P04": ("lint over type-checked binding calls: return type, policy and keep-alive", "All bindings that return references, pointers or iterators."),
    "P05": (FLOW + ": arguments reaching the library call of each binding", "All binding lambdas that forward."),
    "G01": ("typestate analysis of GDAL status values on all paths", "All GDAL calls of the wrapper."),
    "G02": (FLOW + ": row/column roles of arguments at each GDAL call", "All GDAL calls that take or give extents or positions."),
    "G03": ("table extraction from traits and dispatch paths, compared as bijections", "All traits and dispatch functions."),
    "G04": (FLOW + ": outcome of the comparisons on each path against the number of differences reported", "All functions that compare rasters."),
    "G05": (FLOW + ": the operations of GDAL performed on each path, their arguments against the caller's, their answers against the results", "All functions that wrap an operation of GDAL, and the members that delegate to them."),
    "C01": ("comparison of preprocessed headers and of type-checked inline definitions between translation units", "All headers and units of the built components."),
    "R01": (FLOW + ": names, types and shapes used by create and open of raster views", "All functions of the raster view."),
    "Q01": (FLOW + ": values written under each JSON name; stopwatch state", "All functions of the scalability library."),
    "Q02": ("abstract interpretation of the Python syntax trees: names read and written per class", "All classes with JSON conversion."),
    "Q03": ("symbolic path analysis of the Python package: answers of started commands, texts of generated scripts, files written against files read", "All functions that reach a started command, and all paths of the script generators and imports."),
    "Q04": ("symbolic path analysis of the Python package: names read against names written, origin of imported values, normal forms of formulas, order of table columns and plot coordinates", "All paths of generation, import, post-processing, export and summary, per kind of experiment and number of measurements."),
    "E01": (FLOW + ": saved state is what the destructor restores; reclaim arguments", "The scope-guard classes."),
}
NA = {
    "X01": "what survives a crash depends on the HDF5 library's write order and the operating system; no static argument about this source decides it",
    "X02": "bit-for-bit round trips are decided inside the HDF5 library (conversion and storage), whose source is not here; the type tables and transfer arguments are decided by H03, H05 and M04",
    "X03": "the framework needs HPX, which is not installed: its sources cannot be type-checked here, and equality of numerical results for all partitionings is a runtime quantity",
    "X04": "the framework needs HPX, which is not installed; its dependencies between tasks arise at run time from futures",
    "X05": "the parallel I/O needs HPX and parallel HDF5, which are not installed, so the sources cannot be type-checked",
    "X06": "the translate and utility components are not built here (their dependencies are missing) and value preservation depends on the contents of external files",
    "X07": "the viewer needs GUI libraries that are not installed; what is displayed is a runtime matter",
    "X08": "accuracy of a measured duration is a property of the clock and the scheduler at run time",
}
EXTRA_NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(HERE, "checks", p + ".py")):
        t, n = TECH[p]
        checks.append({"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"python3 run.py {p} --thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": EXTRA_NA.get(p, "no check built (yet)")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of /repo's current sources: extract/lue_extract.cpp (Clang front end) feeds lib/flow.py (value-flow engine); checks/<id>.py holds the rules."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
