"""Writes /verif/MANIFEST.json from the checks that exist (edit here, not there)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "P01": ("exhaustive enumeration of shells and random generation (hypothesis) against an independent enumeration of the lattice",
            "All numbers of the first shells, and random large ones; round trips and symmetries."),
    "P02": ("property-based testing (hypothesis): generated stencils against a model built from the components",
            "Random sets of velocities, standard or not, one to four elementary schemes."),
    "P03": ("property-based testing (hypothesis): generated schemes against exact rational matrices",
            "Symbolic matrices are compared in exact arithmetic where the numbers are rational."),
    "P04": ("property-based testing (hypothesis) against a dense reference implementation of the scheme",
            "Array backend; the compiled one is tied to it by P05."),
    "P05": ("differential property-based testing (hypothesis): cython backend against numpy backend",
            "Each case costs a compilation, so the number of cases is the smallest of all checks."),
    "P06": ("metamorphic property-based testing (hypothesis): same simulation with other storage orders, loops, algorithms",
            "Array backend and the compiled one for a smaller number of cases."),
    "P07": ("metamorphic property-based testing (hypothesis): conservation, translation and lattice symmetries of generated simulations",
            "No reference implementation is needed: totals and transformed runs of the code itself."),
    "P08": ("stateful model-based testing (hypothesis): sequences of API operations against a model of moments and distributions",
            "Sequences of up to 12 operations, in 1D and 2D, array backend and compiled one."),
    "P09": ("property-based testing (hypothesis): generated domains and boundary conditions against a reference of each condition",
            "The reference takes the geometry from an independent model of the elements, or from the domain where the check is about the formula."),
    "P10": ("property-based testing (hypothesis): recorded calls of user functions and uniform states against the documented values",
            "Arguments received by the functions and effect of the values on the solution."),
    "P11": ("property-based testing (hypothesis): generated domains against exact membership of the elements",
            "Cells closer to a surface than the round-off are not judged."),
    "P12": ("property-based testing (hypothesis): generated domains against independent ray casting",
            "Cells for which the geometry is ambiguous at the round-off are not judged."),
    "P13": ("property-based testing (hypothesis): generated elements against analytic membership and ray intersection",
            "Every type of element, general positions."),
    "P14": ("differential property-based testing: generated simulations run by mpirun with 1 to 8 processes",
            "All the processes are on the same machine."),
    "P15": ("round-trip property-based testing (hypothesis): files read back by h5py and an xml parser",
            "With one or several processes."),
    "P16": ("grammar-based fuzzing of descriptions: well-formed ones and mutants of them, with a model of the schema",
            "Mutations at every level of the description."),
    "P17": ("property-based testing (hypothesis): equivalent equations against the series of the dispersion relation of the scheme",
            "Linear schemes; the reference series is computed numerically with high precision."),
    "P18": ("property-based testing (hypothesis): eigenvalues against the amplification of Fourier modes by the simulated scheme",
            "1D and 2D."),
    "P19": ("grammar-based fuzzing of expressions and loops, differential between backends and a direct evaluation",
            "Expressions of the supported language, numpy and cython backends."),
    "P20": ("metamorphic property-based testing (hypothesis): invariances with respect to the relative velocity",
            "Conserved moments whose span does not depend on the frame."),
    "P21": ("stateful testing (hypothesis): interleavings of several simulations against each one run alone",
            "Bitwise comparison."),
    "P22": ("property-based testing (hypothesis): generated boxes and stencils against arithmetic",
            "Domains and simulations in 1D, 2D and 3D."),
    "P23": ("property-based testing (hypothesis): generated initial data against their direct evaluation",
            "Constants, functions, extra arguments, moments and distributions."),
}
checks, out = [], []
titles = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
for q in titles:
    k = q["id"]
    if os.path.exists(os.path.join(ROOT, "checks", k + ".py")):
        checks.append({"property": k, "quick_cmd": "./run.sh %s quick" % k,
                       "thorough_cmd": "./run.sh %s thorough" % k,
                       "evidence_file": "evidence/%s.json" % k,
                       "technique": T[k][0], "level": "exploration",
                       "level_note": T[k][1] + " Says nothing of the inputs that were not generated."})
    else:
        out.append({"property": k, "reason": "no check yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
               "not_applicable": out,
               "notes": "No hooks in the code under test. See DESIGN.md."}, fh, indent=1)
    fh.write("\n")
