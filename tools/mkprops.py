#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
MAT='composipy/core/material.py'; PRO='composipy/core/property.py'; STR='composipy/core/strength.py'
STU='composipy/core/structure.py'; BK='composipy/pre_integrated_component/build_k.py'
FN='composipy/pre_integrated_component/functions.py'; IIF='composipy/pre_integrated_component/_ii_F.py'; SS='composipy/pre_integrated_component/_S.py'
VAL='composipy/utils/validators.py'; MAX='composipy/optimize/_maximize_buckling.py'; MIN='composipy/optimize/_minimize_panel_weight.py'; OU='composipy/optimize/utils.py'
NAS='composipy/nastranapi/pcomp_generator.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
I=['inputs']
p('C01','Ply stiffness is the inverse of the engineering compliance',
 "For every admissible orthotropic or isotropic material the 3x3 ply stiffness is symmetric, positive definite, and its inverse is the plane-stress compliance of the given constants: 1/E1, 1/E2, -v12/E1 (= -v21/E2) and 1/G12, with nothing else coupled. The reciprocal ratio v21 satisfies v21/E2 = v12/E1, and an isotropic material gives the same stiffness as an orthotropic one with equal moduli.",
 I,"all thermodynamically admissible E1, E2, v12 in [-0.5, 0.5], G12, over many orders of magnitude",
 "One stiffness of one glass ply is tested; isotropic materials, negative or large Poisson ratios and E2 > E1 are never tested.",
 [MAT],[('Q_0 of both materials',MAT),('v21',MAT)],['OrthotropicMaterial.Q_0','IsotropicMaterial.Q_0','OrthotropicMaterial.v21'])
p('C02','Material invariants reproduce the stiffness at every angle',
 "The five invariants (U1..U5) of a material reproduce, through the standard cos/sin 2-theta and 4-theta expansion, the stiffness obtained by rotating the ply by any angle. They satisfy U5 = (U1-U4)/2.",
 I,"all admissible materials and all angles",
 "No test calls the invariants directly; only one buckling test uses them, at a 10% tolerance.",
 [MAT,PRO],[('Invariants',MAT),('Q_layup',PRO)],['OrthotropicMaterial.Invariants()'])
p('C03','Constructors keep valid arguments and reject invalid ones',
 "Materials and plates report back exactly the valid arguments they were created with (numbers given as int, float or numeric string alike), optional allowables may be omitted, unnamed materials of one kind get distinct names and a given name is kept. A negative modulus, thickness, allowable or plate side, a Poisson ratio outside [-0.5, 0.5], a number of shape function terms that is not an integer of at least 1, a value that is not a number, a plate property that is not a laminate, or a list of plies whose length differs from the stacking raises ValueError.",
 I,"every argument of every constructor, valid or invalid one at a time",
 "No test passes an invalid argument or reads an argument back.",
 [VAL,MAT,STU,PRO],[('ComposipyValidator',VAL),('constructors',MAT),('PlateStructure constructor',STU)],['OrthotropicMaterial','IsotropicMaterial','PlateStructure','LaminateProperty'])
p('C04','Materials and laminates are equal exactly when their data are',
 "Two materials of one kind compare equal exactly when all their elastic constants, thickness and allowables are equal, whatever their names. Two laminates compare equal exactly when they have the same angles and equal plies in the same order, or the same lamination parameters, thickness and material; equality is reflexive and symmetric.",
 I,"pairs of materials or laminates that are copies of each other or differ in one randomly chosen datum",
 "No test compares two objects.",
 [MAT,PRO],[('__eq__ of the materials',MAT),('__eq__ of the laminate',PRO)],['== on materials and laminates'])
p('C05','A, B and D are the through-thickness integrals of ply stiffness',
 "For every stacking of plies (mixed materials, thicknesses and angles) the matrices A, B and D equal the integrals over the thickness of 1, z and z^2 times the ply stiffness rotated to the plate axes, with z measured from the midplane and the first ply at the bottom. The combined matrix is [[A, B], [B, D]], symmetric and positive definite, and the ply interfaces run from -h/2 to h/2 in steps of the ply thicknesses.",
 I,"all layups of 1 to many plies, mixed materials and thicknesses, angles of any magnitude and sign",
 "One 3-ply symmetric laminate is tested, whose B is zero: the sign and order conventions of B, odd stackings and mixed materials are never reached.",
 [PRO],[('A, B, D, ABD',PRO),('Q_layup, T_layup, z_position',PRO)],['LaminateProperty.A/B/D/ABD','z_position','Q_layup'])
p('C06','Laminate stiffness transforms with the layup',
 "Reversing a layup keeps A and D and negates B; negating every angle negates only the 16 and 26 terms; rotating every ply by an angle rotates A, B and D as tensors; adding 180 degrees to any angle or splitting any ply into thinner ones changes nothing. Scaling all moduli by c scales A, B and D by c, and scaling all ply thicknesses by s scales them by s, s^2 and s^3; a symmetric layup has B = 0 and a balanced one A16 = A26 = 0.",
 I,"all layups and all transformations of them",
 "Tests evaluate isolated layups and never relate two of them.",
 [PRO],[('Q_layup',PRO),('A, B, D',PRO)],['LaminateProperty.A/B/D'])
p('C07','Lamination parameters are the normalised layup integrals and feasible',
 "The in-plane lamination parameters are the thickness-weighted means, and the bending ones the z^2-weighted means, of cos 2t, sin 2t, cos 4t and sin 4t over the layup. All lie in [-1, 1] and satisfy xi3 >= 2*xi1^2 - 1, and a single-angle laminate gives exactly the cosines and sines of that angle.",
 I,"all layups, equal or unequal ply thicknesses",
 "One symmetric layup of equal plies is tested.",
 [PRO],[('xiA, xiD',PRO)],['LaminateProperty.xiA','LaminateProperty.xiD'])
p('C08','Lamination parameters rebuild the laminate they came from',
 "A laminate defined by the in-plane and bending lamination parameters and total thickness of any one-material layup has the same A and D as that layup, whatever the ply thickness of its material, and B = 0. The parameters it reports are the ones it was defined with, the in-plane part may be omitted (then A is zero), and a definition without bending parameters or thickness raises KeyError.",
 I,"all one-material layups and all parameter sets, in any order of reading the results",
 "One test builds a laminate from parameters, reads only its buckling load and accepts 10%.",
 [PRO,MAT],[('A, B, D from parameters',PRO),('Invariants',MAT)],['LaminateProperty({...}).A/B/D/ABD/xiA/xiD'])
p('C09','Ply stresses are in equilibrium with the applied loads',
 "For every laminate and every combination of the six loads, the reported stresses in plate axes, integrated over the thickness with weights 1 and z, return Nxx, Nyy, Nxy, Mxx, Myy and Mxy. The midplane strains and curvatures satisfy ABD times strain = load.",
 I,"all laminates (symmetric or not, mixed materials) and all load vectors",
 "Tests load one symmetric laminate with one load component at a time and check a handful of rows at 1% plus an absolute tolerance.",
 [STR,PRO],[('epsilon0',STR),('calculate_stress',STR)],['LaminateStrength.epsilon0()','LaminateStrength.calculate_stress()'])
p('C10','Ply strain and stress tables describe every ply face in order',
 "The strain and stress tables have two rows per ply, from the bottom ply to the top one, each with its ply number, its angle, 'bot' then 'top' and the height z of that face. The plate-axis strains of each row are the midplane strains plus z times the curvatures, so they are continuous across ply interfaces, and the plate-axis stresses are the rotated ply stiffness times them.",
 I,"all laminates and loads",
 "Six rows of one 4-ply laminate are tested; ply numbers, heights, positions and angles never are.",
 [STR],[('calculate_strain',STR),('calculate_stress',STR)],['calculate_strain()','calculate_stress()'])
p('C11','Material-axis strains and stresses are the rotated plate-axis ones',
 "In every row the strains and stresses in material axes are the plate-axis ones rotated by the ply angle as tensors (engineering shear strain), and the material stresses equal the ply stiffness times the material strains. Strain energy density, trace and determinant are the same in both axes. The transformation matrices the laminate reports for each ply are those of these two rotations.",
 I,"all laminates, angles and loads",
 "Only the 45 degree plies of one laminate are tested.",
 [STR,PRO],[('calculate_strain',STR),('calculate_stress',STR),('T_layup',PRO)],['calculate_strain()','calculate_stress()','LaminateProperty.T_layup'])
p('C12','Strength results are linear in the loads and frame independent',
 "Midplane strains, strains and stresses are linear in the six loads: they superpose and scale. Rotating the whole layup and the loads together by any angle leaves the material-axis strains and stresses of every ply unchanged, and reversing the layup with the moments negated returns the same plies in reverse order.",
 I,"all laminates, pairs of load vectors and rotation angles",
 "Tests evaluate isolated load cases and never relate two of them.",
 [STR,PRO],[('epsilon0, calculate_strain, calculate_stress',STR)],['LaminateStrength results'])
p('C13','Maximum-stress margins follow the stress of the same ply face',
 "For every ply face of a laminate whose plies have positive allowables the margin in each of the five modes is its own ply's allowable divided by the magnitude of the stress component acting in that mode, minus one, and infinite when the component has the opposite sign or is zero. Rows carry the ply, angle and position of the stress they are computed from, and the critical mode of a row is one with its smallest margin.",
 I,"all laminates of orthotropic plies with positive allowables (different per ply) and all loads",
 "No test touches the margins.",
 [STR],[('calculate_maxstressmargin',STR)],['calculate_maxstressmargin()'])
p('C14','Bending and geometric stiffness are the Ritz energies',
 "For every laminate, plate size, edge supports, loads and numbers of terms, the bending stiffness matrix and the geometric stiffness matrix are the second derivatives of the bending energy and of the work of the in-plane loads, for a deflection expanded in the products of Bardell's shape functions that the supports admit. Both are symmetric, and the stiffness is positive semi-definite.",
 I,"all laminates, sides, supports, loads and numbers of terms up to the 30 available functions per direction",
 "Four buckling loads are tested at 10%, on square plates with D16 = D26 = 0 or nearly so, m = n = 10 and supports equal on all edges; the 5400 tabulated integrals are otherwise untested.",
 [BK,FN,IIF,STU],[('calc_k33_ijkl, calc_kG33_ijkl',BK),('pre-integrated terms',IIF),('calc_K_KG_D',STU)],['PlateStructure.calc_K_KG_D()'])
p('C15','Full stiffness couples membrane and bending consistently',
 "For every laminate the full stiffness matrix is the second derivative of the laminate's membrane, coupling and bending energy over the displacement terms (u, v, w) the supports admit. It is symmetric and positive semi-definite, its geometric counterpart acts on w only, and for B = 0 its w block equals the bending-only stiffness with no coupling to u and v.",
 I,"all laminates (symmetric or not), sides, supports, loads and small numbers of terms",
 "No test computes the full stiffness matrix.",
 [BK,FN,IIF,STU],[('calc_K11 ... calc_k32',BK),('calc_K_KG_ABD',STU)],['PlateStructure.calc_K_KG_ABD()'])
p('C16','Buckling analysis returns the lowest buckling factors and modes',
 "For every properly supported plate of at least three terms under a load with compression or shear, the analysis returns the requested number of buckling factors (fewer only when the model has too few terms), each with a mode satisfying K*mode + factor*KG*mode = 0. The first factor is the smallest positive one of the model and the positive ones are ascending with none skipped, whatever the magnitude of the loads.",
 I,"all laminates, sides, supports, load directions and magnitudes (factors far below and far above 1), numbers of terms and of requested factors",
 "Four first factors are tested at 10%, all with unit loads, so every factor is above 1.",
 [STU],[('buckling_analysis',STU)],['PlateStructure.buckling_analysis()'])
p('C17','Buckling factors scale with load, stiffness and size',
 "Multiplying all loads by c > 0 divides every buckling factor by c; multiplying all moduli by c multiplies it by c; multiplying every ply thickness by s multiplies it by s^3; multiplying both plate sides by s divides it by s^2.",
 I,"all plates and scale factors",
 "Tests never relate two analyses.",
 [STU,BK,PRO],[('buckling_analysis',STU),('calc_k33_ijkl, calc_kG33_ijkl',BK)],['PlateStructure.buckling_analysis()'])
p('C18','Buckling factors do not depend on how the plate is described',
 "Exchanging the x and y axes (sides, supports, loads, numbers of terms and ply angles together), mirroring the plate (angles and shear negated, opposite supports exchanged) and turning it by 180 degrees leave all buckling factors unchanged, the last two for models of at least four terms in each direction. So does reversing a layup, and without bend-twist coupling (D16 = D26 = 0) so does the sign of the shear load, given the same four terms.",
 I,"all plates, with supports that differ from edge to edge",
 "Tests never relate two analyses, and only plates with equal supports on all edges are tested.",
 [STU,BK,FN],[('calc_K_KG_D, support handling',STU),('calc_k33_ijkl, calc_kG33_ijkl',BK)],['PlateStructure.buckling_analysis()'])
p('C19','Critical load converges from above and stiffens with supports',
 "Increasing the number of terms in either direction never raises the lowest buckling factor, and for a specially orthotropic simply supported plate under normal loads it is never below the closed-form critical load and reaches it with enough terms. Supporting an edge more strongly (free, pinned, clamped) never lowers the converged critical load.",
 I,"all plates, supports and numbers of terms",
 "One number of terms is tested per plate, at 10%.",
 [STU,BK,IIF],[('Ritz model',STU)],['PlateStructure.buckling_analysis()'])
p('C20','Edge supports act on the edge and the freedom they name',
 "The named supports ('pinned', 'simply_supported', 'clamped', 'fixed', 'free', in any case), the 'PINNED' and 'CLAMPED' shortcuts, the default and the equivalent lists of freedoms in any order, for all edges or for some of them, give the same model. On every edge and every direction the modes have zero deflection where TZ is listed, zero normal slope where RZ is listed, and are otherwise free to move; TX/RX and TY/RY act in the same way on u and v only; an unknown support name raises an error.",
 I,"all combinations of supports on the four edges, by name or by any subset of the six freedoms",
 "Tests use only the PINNED and CLAMPED shortcuts.",
 [STU],[('support handling',STU)],['PlateStructure.calc_K_KG_D/ABD, buckling_analysis, plot_eigenvalue'])
p('C21','The plotted mode is the buckling mode over the plate',
 "For any grid size and any computed mode, the plotted surface covers the plate from (0, 0) to (a, b) on an evenly spaced grid and its height at each point is the deflection of that mode there, up to nothing but the mode's own amplitude. The plate keeps the factors and modes of its latest analysis and plots those; plotting runs the analysis if it was not run yet.",
 I,"all plates, supports, modes, numbers of terms and grid sizes, square or not",
 "No test plots anything.",
 [STU,FN,SS],[('plot_eigenvalue',STU),('shape functions',SS)],['PlateStructure.plot_eigenvalue()'])
p('C22','Maximising the buckling load finds the best feasible laminate',
 "The optimum of the buckling load maximisation lies within the chosen feasible region (triangle or parabola) and the bounds, its reported objective is minus the buckling load of the laminate with those parameters under the normalised loads, and no feasible laminate has a notably higher buckling load.",
 I,"all materials, panels, supports and load combinations with compression or shear, with and without the penalty region",
 "One panel under one load, with the penalty region, is tested.",
 [MAX,OU],[('maximize_buckling_load',MAX),('Ncr_from_lp, penalty and natural constraints',OU)],['maximize_buckling_load(...)'])
p('C23','Minimising panel weight gives the thinnest panel that holds',
 "When the weight minimisation reports success, the panel of that thickness and lamination parameters carries the given loads without buckling (factor at least 1 within tolerance), the parameters are feasible, and no notably thinner panel could: the thickness matches the one implied by the best buckling load found by the maximisation for the same panel. The reported objective is the cube of the thickness.",
 I,"all materials, panels, supports and loads with compression or shear, of any magnitude",
 "The only test is flaky and left out of the stable set.",
 [MIN,OU],[('minimize_panel_weight',MIN)],['minimize_panel_weight(...)'])
p('C24','Stacking notation expands to the plies it denotes',
 "Every string in the documented notation expands to its plies in order: angles (integer or decimal, signed) separated by '/', '_n' or '_{n}' repeating a ply n times, '\\pm' alternating the sign over the repetitions starting with the written one, a parenthesised group repeated by its multiplier, and a trailing s or S appending the mirror image. Spaces around the parts and braces around repetition numbers make no difference.",
 I,"all strings of the grammar",
 "No test refers to the NASTRAN API.",
 [NAS],[('build_sequence',NAS)],['build_sequence(...)'])
p('C25','The PCOMP card holds every ply exactly once, in order',
 "Read back as a NASTRAN free-field card, the generated text gives the property id, the offset and for every ply in order its material, thickness, angle and output request, two plies per line and every entry in its own field. Single values apply to all plies, FIBER requests output for the first and last ply only, and lists of the wrong length or an unknown single output request raise ValueError.",
 I,"all sequences of 1 to many plies, scalar or per-ply arguments",
 "No test refers to the NASTRAN API.",
 [NAS],[('build_pcomp',NAS)],['build_pcomp(...)'])
p('C26','Analyses are repeatable and leave their inputs alone',
 "In any order and any number of times, reading laminate results, strength tables, plate matrices, buckling factors and plots gives the same values as computing each of them once on fresh objects. Nothing changes the lists, dictionaries, materials and laminates passed in or a result returned earlier, and objects sharing a material or a laminate do not affect each other. Objects keep the stacking, plies, parameters and supports they were made from when the caller later changes those lists or dictionaries.",
 ['histories'],"all interleavings of the public operations on several objects sharing materials and laminates",
 "Every test computes one result once on a fresh object.",
 [PRO,STR,STU,MAT],[('cached matrices',PRO),('in-place strain tables',STR),('stored modes',STU)],['all public results'])
p('C27','Optimisation depends on load direction, not on its magnitude',
 "Multiplying the three loads by any positive factor does not change the laminate found by the buckling load maximisation nor its reported objective, which refers to loads divided by the largest magnitude among them; the weight minimisation returns a thickness proportional to the cube root of the factor. Loads above 1 in magnitude, and loads with neither a negative normal nor a shear component, are warned about, and other loads are not.",
 I,"all load triples and positive factors",
 "One unit load case is tested.",
 [MAX,MIN,OU],[('normalize_critical_load',OU),('check_loads',OU)],['maximize_buckling_load(...)','minimize_panel_weight(...)'])
p('C28','A plate buckles alike from a layup and from its parameters',
 "For every one-material symmetric layup, a plate whose laminate is given by the bending lamination parameters and total thickness of that layup has the same stiffness matrices and the same buckling factors as the plate with the layup itself. The plate depends on the laminate through D only, so replacing in-plane parameters, the ply thickness of the material given with the parameters or adding an antisymmetric part changes nothing.",
 I,"all one-material layups, plates, supports and loads",
 "One such pair is tested, each side against a number at 10%.",
 [PRO,STU],[('D from parameters',PRO),('calc_K_KG_D',STU)],['PlateStructure.buckling_analysis()'])
p('C29','The optimisation plot maps the feasible buckling loads',
 "Asked to plot, the buckling load maximisation returns the same optimum and draws contours of the buckling load over an even grid of lamination parameters from -1 to 1, with a value exactly at the feasible points and nothing at the others, the boundary of the chosen region, and the optimum it returns. Not asked to, it draws nothing.",
 I,"all panels, both feasible regions and any number of grid points",
 "The only test switches the plot off.",
 [OU,MAX],[('plot_optimization',OU)],['maximize_buckling_load(..., plot=True)'])
p('C30','Optional arguments default as documented and may be positional',
 "Materials, laminates, strength and plate objects, the buckling analysis and its plot, the PCOMP card and both optimisations give the same results whether arguments are passed by keyword or by position in the documented order, and whether an optional argument is left out or passed with its documented default: no allowables, no loads, all edges pinned, 10 terms for a plate and 7 in the optimisations, 5 factors computed silently, the first mode on a 20 x 20 grid, PCOMP number 1 without offset and with FIBER output, the start [0.1, 0, 0], the triangle as feasible region, no plot and 30 points per axis. Solver options and a tolerance given to the optimisations reach the solver.",
 I,"all public calls, every subset of the optional arguments left out and every number of positional arguments",
 "Tests call each function in one way, with most optional arguments given by keyword.",
 [MAT,PRO,STR,STU,MAX,MIN,NAS],[('constructors',MAT),('PlateStructure, buckling_analysis, plot_eigenvalue',STU),('maximize_buckling_load',MAX),('minimize_panel_weight',MIN),('build_pcomp',NAS)],
 ['public constructors, methods and functions'])
GEN=['composipy/pre_integrated_component/write_shape_function.py','composipy/pre_integrated_component/write_pre_integrated_terms.py','composipy/theoretical/write_bardell_terms.py']
p('C31','The table generators write Bardell functions and their integrals',
 "Run as programs, the generator of the shape functions writes every Bardell function and the product f_i(xi) f_j(eta) of every pair of them, and the generator of the integrals writes, for every pair (i, k) of its functions, the integral from -1 to 1 of f_i or its first or second derivative times f_k or its derivative, as named, exact for any number of terms up to 50. The first four functions are the cubics of unit end deflection and slope, the others those whose second derivatives are Legendre polynomials; the printed set for the theory notebooks carries the end flags t1, r1, t2 and r2 on the first four.",
 I,"all functions, pairs of functions and derivatives, evaluated exactly at arbitrary points",
 "No test runs the generators, although every stiffness rests on their tables.",
 GEN,[('_orth_polynomials, products',GEN[0]),('derivatives and integrals',GEN[1]),('flagged functions',GEN[2])],['the files _S.py and _ii_F.py they write, the printed dictionary'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
for q in P: assert len(q['title'])<=80,(q['id'],len(q['title']))
open(out,'w').write(''.join(json.dumps(q)+'\n' for q in P))
print(len(P))
