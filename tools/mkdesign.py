#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.in.md, properties.jsonl, the contracts and the last evidence files."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
"C01": "Domain: all status tables (free/fixed/second class/constrained, symbolic branching) of meshes with up to 4 nodes and 5 dofs in the layouts 2x2, 1-2-1, 3-1, 1-1-1-1, with any constraint table on them. Oracle: the numbering rules of the SAM documentation.",
"C02": "Domain: as C01, with symbolic element matrix, coefficients and prescribed values; dense, editable sparse and both compressed forms. Oracle: explicit T'kT, T'(f-kg) formed in the contract from the definition of T and g.",
"C03": "Domain: as C01. Oracle: the rule itself.",
"C04": "Domain: as C01; reaction sums compared with the sum over slots.",
"C05": "Domain: constraints with up to 3 masters, chains over patches with up to 4 nodes, all permutations and shifts of node numbers, operation sequences up to 3. Oracle: the linear relation expressed by a constraint set, evaluated at symbolic nodal values before and after.",
"C06": "Domain: all sparsity patterns of matrices up to 3x3 / 2x4 (thorough) with symbolic values. Oracle: the dense matrix of the same entries.",
"C07": "Domain: dimensions up to 4 with and without BLAS (the BLAS routines are assumed contracts), symbolic contents, and unbounded contracts (`P_`) for any size. Oracle: textbook formulas.",
"C08": "Domain: all dimension combinations up to 4, symbolic contents; and any dimensions with unbounded contracts (`P_`).",
"C09": "Domain: up to 4 equations and right-hand sides; products, sums and norms of any size with unbounded contracts (`P_`). A pivot is zero or larger than 1e-10 (assumption).",
"C10": "Domain: all tensors in dimension 1-3 (finite), both storage forms: complete. Principal values in 3D and rotation vectors: bounded stand-ins (`N_`), since they iterate to a tolerance.",
"C11": "Domain: arbitrary states, schedules with up to 2 stages x 2 steps; one increment or cut-back from an arbitrary state fulfilling the invariant, i.e. an induction over any sequence.",
"C12": "Domain: arbitrary positive step sizes; arbitrary step number by induction (`H_bdf_any_step`): complete.",
"C13": "Domain: symbolic state vectors of 1-2 dofs (all operations are element-wise), symbolic parameters, up to 3 corrections; induction over steps; and state vectors of any size, with unbounded contracts (`P_`). Assembly and solution of the equations return arbitrary results.",
"C14": "Domain: element matrices up to 2x2 (operations are element-wise), all modes and optional matrices; and of any size with unbounded contracts (`P_`).",
"C15": "Domain: degree up to 5 in 1D, 3 in 2D and 3D, symbolic nodes and points.",
"C16": "Domain: every available rule (finite): complete, to a rounding tolerance of 1e-12 on the tabulated constants.",
"C17": "Domain: order up to 9 (end points up to 30), symbolic points. Zeros of Legendre polynomials: bounded stand-in (LAPACK).",
"C18": "Domain: all zero-span patterns of meshes up to 8 elements in a direction, up to 4 threads, degree up to 3, all strip directions.",
"C19": "Domain: tables of up to 6 points with symbolic, increasing arguments; all kinds of functions and of parsed function text.",
"C20": "Domain: symbolic points, times and parameters. Time functions that enter a product are arbitrary (uninterpreted) functions. Complete but for the table size of Interpolate1D (up to 3).",
"C21": "Domain: 2 or 3 blocks, up to 2 components and nodes each, all symmetry flags and shared bases.",
"C22": "Domain: dimension 1-3, bases with 1 and 2 functions (the operators are double loops over functions without coupling), symbolic values; and bases with any number of functions, with unbounded contracts (`P_`).",
"C23": "Domain: all values; all 2D and 3D corner patterns: complete.",
"C24": "Domain: lists of up to 4 entries with symbolic values and indices; gather by row blocks; lists of any length with an unbounded contract (`P_`).",
"C25": "Domain: any message length up to and beyond the buffer (the length is symbolic), up to 2 messages, any content class and parse result. System calls and the XML library are recorders.",
"C26": "Domain: up to 3 norm groups, 3 elements, symbolic values and arbitrary final operation.",
"C27": "Domain: up to 4 states (6 thorough) with symbolic contents; state vectors of any length with unbounded contracts (`P_`).",
"C28": "Domain: dimension 1-3, symbolic coordinates and gradients. The mapping derivative is arbitrary, so that the number of nodes does not matter; and any number of nodes with unbounded contracts (`P_`).",
"C29": "Domain: all dimensions up to 4 per block and 4 blocks (product up to 6; 9 thorough).",
"C30": "Domain: symbolic mesh sizes through all cases up to 8 per direction, up to 6 sub-domains and overlap 3.",
"C31": "Domain: up to 3 vectors of length 3 with symbolic contents, all integrators, schedules with 2x2 steps. The archive of cereal is executed (its stream is an assumed contract).",
"C32": "Domain: arbitrary sequences of norms and solver results with up to 2 (3 thorough) iterations per step, all convergence-norm and update options; two coupled simulators.",
"C33": "Domain: two to three patches with up to 4 nodes, all condition kinds, element numbers in order, out of order, with holes, zero volume; merging of two such models with coupling maps.",
"C34": "Domain: up to 3-4 elements with symbolic errors (including ties), every threshold type, symbolic percentage.",
"C35": "Domain: 1-3 bases of 1-2 functions, dimension 1-3, arbitrary mapping derivative; and any number of functions with unbounded contracts (`P_`).",
"C36": "Domain: dimension 2-3, each basis with 1 or 2 functions, two numberings of blocks, symbolic values; and any number of functions with unbounded contracts (`P_`).",
"C37": "Domain: every method offered (explicit and embedded Runge-Kutta, Adams-Bashforth 1-5, Adams-Moulton 1-5), systems of 1-2 unknowns with arbitrary (uninterpreted) slopes, up to the number of steps after which the history is full; a failing solve at any step. Oracle: the order conditions of Runge-Kutta methods and exactness of multistep methods on polynomials of their order.",
"C38": "Domain: arbitrary results of the simulators (step succeeds, fails, cuts back), schedules of up to 3 steps, up to 2 writers and arbitrary field masks; coupled simulators with up to 3 coupling iterations. Oracle: the sequence of calls (recorded) demanded by the stepping protocol.",
"C39": "Domain: systems of 1-3 equations (dense also 3x3 in the thorough tier) with symbolic coefficients and every zero pattern that keeps the matrix regular or singular, two right-hand-sides, 1-2 matrices, models with fixed, prescribed and slave dofs. The external solvers (SuperLU, UMFPACK, LAPACK) are assumed contracts: exact solution by Cramer's rule of the factors they were given, in the storage they were given.",
"C40": "Domain: models of 2-3 patches with and without inactive ones, up to 2 properties of each kind in both orders, several materials, 0-2 projections, symbolic nodal values and contributions. The integration over one patch is replaced by a recorder adding arbitrary contributions (its own contracts are those of the integration properties).",
"C41": "Domain: models of 1-2 patches with boundary entities of every dimension, up to 2 entities per code in both orders, 1-3 dofs per node (varying), repeated and absent nodes, symbolic values. Integration over and topology of the boundary of one patch are arbitrary.",
"C42": "Domain: elements of 2D and 3D Lagrange patches, 1-2 components, symbolic nodal values and (affine) coordinates; files of up to 3 time levels; L2 systems of up to 3 unknowns with symbolic integration points and weights, where the residual is shown to be orthogonal to the basis. SuperLU is an assumed contract (exact solution). Function objects: up to 2 terms, symbolic values and weights.",
"C43": "Domain: parallelograms with symbolic corners, 4 x 4 cells where the indicator differs in up to two cells, refinement depth up to 2; grids of up to 8 elements of mixed type with symbolic coordinates; symbolic shape data. Sine and cosine are arbitrary values with squares summing to one.",
"C44": "Domain: texts of a grid with 7 nodes and 2-4 elements in the layout that the writer uses, with up to two sets of each kind and all combinations of the options; 3-element patches with symbolic coordinates. tinyxml2 is replaced by a small parser in contracts/xml.inc (assumed). The base classes that need GoTools are replaced by stand-ins.",
}
NOTES.update(json.load(open(os.path.join(ROOT, "tools", "notes_extra.json"))) if os.path.exists(os.path.join(ROOT, "tools", "notes_extra.json")) else {})
LEVEL = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
out = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    cs = []
    for f in sorted(glob.glob(os.path.join(ROOT, "contracts", i + "*.cpp"))):
        t = open(f).read()
        for g in re.findall(r'VC-INCLUDE: *(.*)', t):
            for h in g.split():
                t += open(os.path.join(ROOT, "contracts", h)).read()
        cs += [c for c in re.findall(r'^CONTRACT\((\w+)\)', t, re.M) if c not in cs]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    out.append("Under contract: " + "; ".join("%s (%s)" % (m["where"], m["name"]) for m in p["anchors"]["mechanism"]) + ".")
    out.append("")
    out.append(NOTES.get(i, ""))
    out.append("")
    ev = os.path.join(ROOT, "evidence", i + ".json")
    s = "Level %s. %d contracts" % (LEVEL.get(i, ["other"])[0], len(cs))
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        s += "; about %d obligations on %d paths, %d functions of the tree, %d s" % (c["obligations"], c["paths"], c["number_of_functions"], round(e["wall_s"]))
    out.append(s + ": " + ", ".join("`%s`" % c for c in cs) + ".")
    out.append("")
seeds = ["| planted bug | property | caught by | what it needs |", "|---|---|---|---|"]
catch = json.load(open(os.path.join(ROOT, "tools", "catch.json"))) if os.path.exists(os.path.join(ROOT, "tools", "catch.json")) else {}
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s | %s |" % (n, m["property"], catch.get(n, m["property"]), m["needs"]))
t = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
pm = os.path.join(ROOT, "tools", "PMODE.md")
t = t.replace("@PROPS@", "\n".join(out).strip()).replace("@SEEDS@", "\n".join(seeds))
t = t.replace("@PMODE@", open(pm).read().strip() if os.path.exists(pm) else "")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
