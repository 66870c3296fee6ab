#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
'C01': ('property-based testing (Hypothesis) against the inverse compliance matrix', ''),
'C02': ('property-based testing against the ply rotated as a fourth-order tensor', ''),
'C03': ('property-based testing of constructors: round trip of valid arguments, rejection of one invalid one', 'NaN, complex numbers and E1 = 0 are outside of the domain.'),
'C04': ('property-based testing on pairs that are copies or differ in one datum', 'Materials of different kinds raise ValueError by design and are not compared.'),
'C05': ('property-based testing against explicit through-thickness integrals', ''),
'C06': ('metamorphic property-based testing of layup transformations', ''),
'C07': ('property-based testing against explicit integrals and feasibility inequalities', ''),
'C08': ('round-trip property-based testing layup -> parameters -> laminate, any order of reading', ''),
'C09': ('property-based testing against the solved ABD system and equilibrium integrals', 'Laminates whose ABD is numerically singular are not generated.'),
'C10': ('property-based testing of the tables against an independent laminate model', ''),
'C11': ('property-based testing against tensor rotation and invariants', ''),
'C12': ('metamorphic property-based testing (superposition, rotation, reversal)', ''),
'C13': ('property-based testing against margins recomputed from the stress table and from the model', 'Orthotropic plies only: isotropic ones do not carry these allowables.'),
'C14': ('differential property-based testing against a Ritz model with exact integrals', 'Also sweeps every one of the tabulated integrals once per run.'),
'C15': ('differential property-based testing against a Ritz model with exact integrals', 'Also sweeps every one of the tabulated integrals once per run.'),
'C16': ('property-based testing against a dense generalised eigensolver and the eigenvalue equation', 'Mechanisms and models of fewer than three terms are outside of the domain.'),
'C17': ('metamorphic property-based testing (scaling)', ''),
'C18': ('metamorphic property-based testing (symmetries of the plate)', ''),
'C19': ('metamorphic property-based testing (more terms, stronger supports) and closed form solution', 'Convergence is checked at a finite number of terms.'),
'C20': ('differential property-based testing over the support subsets; modes evaluated at the edges', ''),
'C21': ('property-based testing of captured plot surfaces against Legendre-based shape functions', 'A supplement compares the table of shape functions itself where the module still has it.'),
'C22': ('property-based testing against grid search of the concave buckling load', 'Optimality to 1 % with one lowest mode, 15 % (5 % without penalty) where several modes coincide; see DESIGN.md.'),
'C23': ('property-based testing against the reference buckling load of the returned laminate and the best one', 'Thickness in the range of the optimiser; tolerances as C22, on the load.'),
'C24': ('grammar-based generation with a reference evaluator of the syntax tree', ''),
'C25': ('round-trip property-based testing with a strict NASTRAN free-field reader', 'Reals written without a decimal point are not judged.'),
'C26': ('model-based histories of operations against fresh objects in pristine processes', 'Modes are compared only where their factors are well apart.'),
'C27': ('metamorphic property-based testing (load scaling) and warning oracle', 'Comparison to the tolerance of the optimiser.'),
'C28': ('differential property-based testing layup versus lamination parameters', ''),
'C29': ('property-based testing of the captured figure against pointwise reference buckling loads', 'Reads the contour data of the matplotlib figure.'),
'C30': ('metamorphic property-based testing: any split of the arguments against all keywords with the documented defaults', 'The results themselves are decided by the other properties.'),
'C31': ('property-based testing of the generated tables in exact rational arithmetic against Legendre expansions', 'The generator of the integrals is run in full size with integrals of polynomials done term by term, and in a small size as it is.'),
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for i, (t, n) in T.items():
    checks.append(dict(property=i, quick_cmd='bash check.sh %s' % i, thorough_cmd='bash check.sh %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=t, level='exploration',
                       level_note=('Held on every generated and explicit case of the run (counts in the evidence); absence of '
                                   'violations elsewhere is not shown. Trusts numpy/scipy dense linear algebra and pbt/ref.py. ' + n).strip()))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
               notes='No hooks: the checks use the public API of the code in /repo only. Repairs of defects: known-findings.txt.'),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
