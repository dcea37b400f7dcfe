#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property listed in CHECKS, the rest is not_applicable."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VN = ('static value analysis: one-pass global value numbering of the compiled IR (LLVM, all helpers inlined) in an exact '
      'algebraic domain with gated joins, ')
NOTE = ('Sound for exact (real) arithmetic: every instruction of the analysed functions gets one exact value and the '
        'equality holds for all inputs; floating-point rounding is outside the claim.')

CHECKS = {
    'C01': (VN + 'compared with nodal conditions and the symbolic derivative', NOTE),
    'C02': (VN + "compared with Green's-theorem integrals of the polygon's own edges", NOTE),
    'C03': (VN + 'tracking which input vertex reaches which edge/connectivity slot', NOTE),
    'C04': (VN + 'compared with the linear-algebra definition of each operation, in both vector representations', NOTE),
    'C06': (VN + 'sign-diagram conditions compared with the curve equations, region emptiness in the polyhedra domain', NOTE),
    'C05': (VN + 'loops peeled at fixed sizes, floor/index conditions compared on sign-diagram regions', NOTE + ' Rectilinear grids are decided at the listed numbers of divisions.'),
    'C07': ('static bit-provenance analysis on the compiled IR: every bit of every result is traced to the input bit it is, in the portable and the BMI2 build', 'Exact for all bit patterns; conversion between reals and integers is taken as exact.'),
    'C08': (VN + 'rounding and trigonometric calls as atoms, compared with the modular ray tracing definition', NOTE + ' Angles other than exactly 90 degrees.'),
    'C10': ('dataflow (ownership and typestate): every allocation, release and access of abstract memory tracked over the container code, contents value-numbered', NOTE + ' Sequences of operations are the listed ones; element values are symbolic.'),
    'C11': (VN + 'symbolic argument, compared with the VTK/XDMF format tables over the whole argument range', 'Exact for every argument value, with and without assertions.'),
    'C16': (VN + 'every C entry point on a model with symbolic numbers, memory events checked for bounds, mesh queries as recorded calls', NOTE + ' The shape of the model (numbers of parts, connectivity) is the listed one; coordinates, extents, divisions and materials are symbolic.'),
    'C19': (VN + 'loops peeled at fixed numbers of groups, temperatures and nuclides, every result component and every reporting condition compared with the definition', NOTE + ' Numbers of groups, temperatures and nuclides are the bounded ones listed in the evidence.'),
    'C20': (VN + 'number densities extracted as rational functions and compared with the definition, reporting conditions compared as sign diagrams', NOTE + ' Constants are compared to a relative accuracy of 2e-5.'),
    'C21': ('static constant propagation through the compiled dynamic initialisers and lookup functions (LLVM IR), every extracted table entry compared with an independent rule or the published value', 'Every entry of the tables in the current source is covered; masses are decided to 0.02 u.'),
    'C25': (VN + 'BLAS/LAPACK routines as contracts on the abstract memory, compared with the mathematical definition for both back ends', NOTE + ' Shapes are the bounded ones listed in the evidence; eigenvalues are decided up to the library routine.'),
    'C09': (VN + 'loops peeled at fixed sizes, root equations checked on every region of the sign diagram', NOTE + ' Array sizes are the bounded ones listed in the evidence; convergence of the cubic iteration is not decided.'),
    'C13': (VN + 'soups and meshes followed through every edit and conversion, each stored number compared with the definition, memory events checked for bounds', NOTE + ' Numbers of vertices, elements and sets are the listed ones; coordinates and set data are symbolic, the order along the space-filling curve is any of the listed permutations.'),
    'C14': (VN + 'edits of a model with parts of every kind followed through the containers; sizes and contents after every refused or accepted edit compared with those before', NOTE + ' The model edited has the fixed numbers of parts listed in the evidence; ids, extents and heights are symbolic.'),
    'C15': (VN + 'the condition under which an edit is refused and every stored value compared with the definition', NOTE + ' The model edited and the layouts requested have the fixed sizes listed in the evidence; ids, extents and heights are symbolic.'),
    'C17': (VN + 'a small model with symbolic coordinates, planes and cross sections flattened to a soup, to file grids and to lists; XML, HDF5 and stream calls recorded, every position, set, volume and text compared with the sums over the parents', NOTE + ' The layout of the model is one of two listed ones; areas and mean chord lengths of single faces are symbols.'),
    'C18': (VN + 'writing and reading composed, the XML document kept as a value between them, every part of the model read compared with the one written', NOTE + ' The layouts are the listed ones, mesh coordinates are symbolic; the grid of one cell is passed on unchanged.'),
    'C30': (VN + 'mesh queries with the queries of one face as recorded symbolic calls, validation followed on listed connectivities', NOTE + ' Numbers of faces and the connectivities are the listed ones; coordinates and the answers of single faces are symbolic.'),
    'C23': ('type checking and linking by the compiler over a covering set of configurations, explicit instantiation of every public class template, and a query over the type-checked syntax trees for declarations without definition', 'Decided for every choice of every three options (CUDA excepted) and the listed template instances; agreement of results between configurations is decided by C04, C07 and C25.'),
    'C31': (VN + 'soups of known shape stand for the files read, powers, fluxes and positions symbolic; every stored or returned number compared with the sum over its faces', NOTE + ' The layouts and orders of faces are the listed ones; powers are assumed positive.'),
    'C29': (VN + 'pitch and radii symbolic, vertices and connectivity extracted from the generated mesh, areas integrated exactly, edges paired', NOTE + ' Numbers of sectors and rings are the listed ones; sines and cosines of the fixed angles to 14 digits.'),
}
NA = {
    'C12': 'Not claimed: the agreement of writer and reader is a fact about the composed program through HDF5 (data sets, spaces and types of the library) for which no contract was written. The parts that need none are decided elsewhere: what is written (C17), reading models (C18), topology tables (C11).',
    'C22': 'Not claimed: the code is compiled only with external cross-section libraries that are absent here, so a counterexample could not be shown against the real build; its type checking in that configuration is part of C23.',
    'C24': 'Not claimed: functions marked free of side effects call the logger and allocate temporaries through pointers kept in memory; separating those from escaping writes for every such function needs a points-to analysis precise for the containers, and the attribute itself lets the compiler drop the calls before the IR can be inspected.',
    'C27': 'Not applicable: which entities overlap and which groups survive is decided at run time inside the mesh-generator library; no static argument over this repository bounds its answers.',
    'C28': 'Not claimed: the lengths of formatted text depend on the values printed and on the C library; bounding them needs a model of printf and of every line of the input files. Overruns of containers are decided by C10, C13 and C16.',
}

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash tools/build.sh',
         checks=[dict(property=p, quick_cmd='python3 check.py ' + p, technique=CHECKS[p][0], level='other',
                      level_note=CHECKS[p][1], evidence_file='evidence/%s.json' % p) for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, 'analysis not built yet; nothing is claimed')) for p in props if p not in CHECKS],
         notes='All checks analyse /repo sources compiled to IR or type-checked; nothing from /repo is executed.')
with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
