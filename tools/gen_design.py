#!/usr/bin/env python3
"""Regenerate DESIGN.md from the text below, properties.jsonl, MANIFEST.json, known-findings.txt and seeded/*/meta.json."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
NA = {n['property']: n['reason'] for n in man['not_applicable']}

HEAD = '''# How the UM2 properties are decided

Technique family: **static analysis**. Nothing of /repo is executed, concretely or symbolically, and no path is
handed to a solver. Every check compiles /repo's current sources with its own `config.hpp` (generated from
`cmake/config.hpp.in`), analyses the result and reports the construct that breaks the rule.

## The engines

* **Value numbering of the compiled IR** (`tools/irdump.cpp`, `engine/`). A probe translation unit instantiates
  templates or calls the public functions. clang 18 turns it, with the repository sources it needs, into LLVM IR.
  `irdump` applies a fixed pipeline (SSA construction, inlining, loop peeling at known counts) and prints the
  resolved program. `engine/ev*.py` gives each instruction *one* value number in an exact algebraic domain: rational functions over symbolic
  inputs with exact rational constants, square roots, trigonometric calls and opaque library calls as atoms. Joins are gated selects
  over the condition of the branch; both sides are evaluated once, so cost follows the number of instructions, not of paths. Memory is an abstract
  store of objects with provenance, which gives bounds, ownership and lifetime events. Conditions are compared as
  sign diagrams of polynomials (`engine/alg.py`, with a Fourier-Motzkin step for linear cases).
  An obligation is an equality of two normal forms, so renaming, extracting helpers, reordering and rewriting loops do not change the verdict.
* **Contracts for what is outside**: memory allocation, `std::sort`, BLAS/LAPACK, pugixml (`engine/xml.py` keeps the
  document as a value), HDF5 and stream calls are modelled by their documented effect on the abstract store.
* **Bit provenance** (C07): each result bit is traced to the input bit it is.
* **Constant propagation** through dynamic initialisers (C21).
* **The compiler as a decision procedure** (C23) plus a libclang query (`tools/decls.c`).

What all value checks have in common: arithmetic is exact, so floating-point rounding is outside the claim. Sizes
(numbers of faces, groups, parts) are the listed ones while all numbers are symbolic. Tests look at single inputs;
these checks compare formulas, so every value of the symbolic inputs is covered. A check whose analysis does not
reach a verdict, or whose anchors vanish, exits 2, never 0 or 1.

`check.py ID` runs one check; `VIOLATION` lines come with a JSON replay under `evidence/` that names function,
file, expected and found value. `UM2_REPO` selects another repository path (used for mutation runs only).

'''

MORE = {
 'C01': ('interpolation at every node, affine reproduction (the vertex weights add up to 1 and reproduce coordinates) and the derivative of the evaluation, computed symbolically and compared with each Jacobian entry', 'six element kinds, 2 and 3 dimensions, both precisions', 'the definition of nodal interpolation; symbolic differentiation'),
 'C02': ('area, centroid, perimeter, mean chord, enclosed area and centroid of a quadratic edge as rational functions of the vertices', 'four polygon kinds, every vertex symbolic', "Green's theorem on the polygon's own edges, integrated exactly"),
 'C03': ('which input vertex reaches which slot of which edge, before and after flipping', 'four polygon and mesh kinds', 'closed loop; reversed set of edges'),
 'C04': ('every operation of the small vectors, matrices, boxes, in both vector representations', 'all supported dimensions and precisions', 'definition of the operation'),
 'C05': ('cell boxes, centroids, index of a contained point, flat index, children', 'all dimensions; regular grids for all sizes, rectilinear ones at listed numbers of divisions', 'tiling and row-major definition'),
 'C06': ('the returned ray parameter and the condition under which it is reported', 'segments of both orders, polygons, boxes', 'equations of line and curve; emptiness of the remaining region in the polyhedra domain'),
 'C07': ('every bit of every code and coordinate', '2-D and 3-D, 32 and 64 bit, portable and BMI2 build', 'interleaving permutation'),
 'C08': ('number, origin and direction of the rays of a module', 'all angles except exactly 90 degrees, all spacings', 'modular ray tracing definition'),
 'C09': ('sums, means, variances at fixed lengths and through the recursive halving; the roots on each region of the sign diagram', 'lengths listed in the evidence; the Newton iteration of the cubic is a contract (its convergence is not decided)', 'definition; root equation'),
 'C10': ('allocations, releases, accesses and contents over sequences of container operations', 'listed sequences; element values symbolic; trivially copyable and owning elements', 'typestate: one owner per live buffer, each released once; value semantics'),
 'C11': ('the tables as functions of a symbolic argument', 'whole argument range, with and without assertions', 'VTK and XDMF format tables'),
 'C13': ('soups and meshes through append, sort, conversion, translation, adjacency', 'listed numbers of elements and sets; coordinates and data symbolic', 'definition; bounds of every memory access'),
 'C14': ('all containers of the model after each refused and each accepted edit', 'a model with parts of each kind; ids, extents, heights symbolic', 'contents before the edit'),
 'C15': ('the condition of refusal and every stored number', 'as C14, with listed layouts', 'definition of validity'),
 'C16': ('every C entry point, each output argument and each memory access', 'one model shape with all four mesh kinds; numbers symbolic', "the model's own accessors"),
 'C17': ('positions, sets, volumes and texts produced when a model is flattened to a soup, to file grids, to CMFD and chord-length lists', 'two listed layouts; coordinates, planes and cross sections symbolic', 'sums over the parents'),
 'C18': ('write followed by read, composed on the IR, with the XML document as a value in between', 'listed layouts (several distinct and repeated parts of each kind)', 'the model that was written'),
 'C19': ('each component of interpolated, mixed and collapsed cross sections, and the conditions of each report', 'listed numbers of groups, temperatures and nuclides', 'definition'),
 'C20': ('number densities as rational functions of density and fractions; conditions of the reports', 'listed compositions', 'mass and atom balance with published masses, relative accuracy 2e-5'),
 'C21': ('every entry of every built-in table', 'all entries; masses to 0.02 u', 'mass numbers, periodic table, published C5G7 set'),
 'C23': ('type checking and linking under a covering set of configurations, headers on their own, explicit instantiation of every public class template, declarations without definition', 'every choice of every three options (CUDA excepted)', 'the compiler and the linker symbol tables'),
 'C25': ('products and solves for both back ends', 'listed shapes; entries symbolic; eigenvalues up to the library routine', 'mathematical definition; BLAS/LAPACK contracts'),
 'C29': ('vertices and faces of the generated mesh for symbolic pitch and radii', 'listed numbers of rings and sectors, both orders', 'exact areas of annuli; edge pairing; conditions of refusal'),
 'C30': ('mesh queries as folds over recorded face queries; validation on listed connectivities', 'listed numbers of faces', 'definition'),
 'C31': ('imported cell meshes, regions of powered faces, sources', 'four mesh kinds, listed layouts and orders of faces; powers, fluxes, positions symbolic', 'connected components and sums computed from the layout'),
}
MORE.update(json.load(open(os.path.join(HERE, 'design_more.json'))) if os.path.exists(os.path.join(HERE, 'design_more.json')) else {})

TAIL = '''## False alarms met and what was changed

* C17 and C30 reported conditions on numbers of the form `a + b sqrt(c)` as undecided; the sign of such constants is now
  decided exactly (`root_sign`).
* C10 took the construction of an element from an element of the same array for a use after release; the order of
  construction and release is now followed, and the real defect behind it was repaired.
* C23 took a by-value `const` parameter for a different function; declarations are matched by canonical signature.
* A property "every mesh kind is stored in its own container" (C26) was dropped: C15 to C18 and C31 decide its content, and
  a separate check alarmed on bugs under which it holds.

'''


def main():
    out = [HEAD, '## Per property\n']
    for p in props:
        i = p['id']
        out.append('### %s %s' % (i, p['title']))
        if i in NA:
            out.append('Not applicable: %s\n' % NA[i])
            continue
        what, bounds, oracle = MORE[i]
        c = next(c for c in man['checks'] if c['property'] == i)
        out.append('* Analysed: %s.\n* Bounds: %s.\n* Oracle: %s.\n* Claim: %s\n* Beyond tests: %s\n' % (what, bounds, oracle, c['level_note'], p['why_tests_cant']))
    out.append('Cost: each check takes 1 to 60 s alone, except C20 and C29 (90 s), C23 (130 s) and C17 (220 s).\n')
    out.append('## Defects found on the unchanged tree\n')
    for l in open(os.path.join(ROOT, 'known-findings.txt')):
        if l.startswith(('fixed:', 'known:')):
            out.append('* ' + l.strip())
    out.append('\nThe `known:` entries are declarations of the mesh-generator wrapper whose definitions are commented out upstream because they depend on the installed '
               'gmsh version; removing or restoring them is a decision for the maintainers.\n')
    out.append(TAIL)
    out.append('## Seeded bugs\n\nEach was written from the property text; the check of its own property is the one that reports it.\n')
    out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
    sd = os.path.join(ROOT, 'seeded')
    res = json.load(open(os.path.join(HERE, 'caught.json'))) if os.path.exists(os.path.join(HERE, 'caught.json')) else {}
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], res.get(s, m['property'])))
    out.append('')
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
