#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
S = "src/hyperelastic/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                     mechanism=[dict(name=a, where=S + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Reduced (Voigt) storage is a lossless, fixed-order view of symmetric tensors",
     "Converting a symmetric second-order or minor-symmetric fourth-order tensor to reduced storage places the components in the documented order 11, 22, 33, 12, 23, 13, and converting back returns exactly the original tensor; the reverse round trip is lossless too. Mirroring one triangle of a matrix onto the other leaves the diagonal and the source triangle unchanged and makes the result symmetric. This holds for any number and size of trailing axes.",
     ["inputs"], "all symmetric / minor-symmetric tensors, all trailing-axis shapes, both storage modes, any given output array",
     "test_math compares a handful of random tensors that are all of rank-one (C⊗C) form, for one trailing shape; index mix-ups that cancel for major-symmetric inputs go unseen.",
     ["math/_voigt.py"],
     [("asvoigt / astensor index tables", "math/_voigt.py"), ("tril_from_triu / triu_from_tril", "math/_voigt.py")],
     observe=["hyperelastic.math.asvoigt", "hyperelastic.math.astensor", "hyperelastic.math.tril_from_triu", "hyperelastic.math.triu_from_tril"])

prop("C02", "Second-order operations in reduced storage equal their full-tensor definitions",
     "For all symmetric second-order tensors, the reduced-storage trace, determinant, deviator, identity, single contraction and double contraction return what the full 3x3 definitions return, and the inverse multiplied with the tensor gives the identity whenever the determinant is non-zero (whether or not the determinant or an output array is passed in).",
     ["inputs"], "all symmetric tensors (invertible ones for the inverse), all broadcastable trailing axes, all combinations of the optional arguments",
     "test_math checks inv only against itself with a precomputed determinant, dot only with equal arguments, and never checks det, eye or trace against the full tensor.",
     ["math/_voigt.py"],
     [("trace, det, inv, dot, dev, eye, ddot(2,2)", "math/_voigt.py")],
     observe=["hyperelastic.math"])

prop("C03", "Fourth-order products in reduced storage equal their index definitions",
     "The dyadic product, the three crossed dyadic products, the double contractions involving fourth-order tensors and the major transpose return, for all symmetric second-order and minor-symmetric fourth-order arguments, exactly the components of their documented index expressions (the crossed product also when both arguments are one and the same array). Passing an output array only redirects where the result is stored.",
     ["inputs"], "all symmetric / minor-symmetric arguments (major symmetry not assumed), aliased or distinct, broadcastable trailing axes, with and without output array",
     "the tests use proportional arguments (D = constant * C) and major-symmetric fourth-order tensors, which cannot separate A from B, ij from kl or il from kj.",
     ["math/_voigt.py"],
     [("dya, cdya, cdya_ik, cdya_il, ddot(2,4)/(4,2)/(4,4), transpose", "math/_voigt.py")],
     observe=["hyperelastic.math"])

prop("C04", "The spectral decomposition reconstructs the tensor",
     "For every symmetric tensor the eigen-decomposition returns three values and three symmetric rank-one bases in reduced storage, such that the bases weighted with the eigenvalues sum up to the tensor, the bases sum up to the identity and the i-th value belongs to the i-th basis. A function passed in is applied to the values only.",
     ["inputs"], "all symmetric tensors including repeated eigenvalues, all trailing-axis shapes, all value functions",
     "no test calls the function directly; the finite-element tests only need the sums to be roughly right for one load path.",
     ["math/_voigt.py"], [("eigh", "math/_voigt.py")], observe=["hyperelastic.math.eigh"])

prop("C05", "Trailing axes are independent material points",
     "Every math function and every stress/elasticity evaluation acts on each material point (index into the trailing axes) independently: evaluating a batch gives the same result as evaluating its points one by one, for any number and size of trailing axes, and also if a model's derivatives are deformation-independent constants without trailing axes. No configuration of the spaces turns a valid batch into an error.",
     ["inputs", "configurations"], "all batch shapes (including none), all spaces, all force/area/finalize/parallel configurations, models with constant or array-valued derivatives",
     "the tests use a few fixed batch shapes with one or two configurations; broadcasting errors only show for specific combinations of constant derivatives, configuration and shape.",
     ["math/_voigt.py", "spaces/_space.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "models/stretches/_generalized_invariants.py"],
     [("broadcast handling in Space.piola", "spaces/_space.py"), ("trailing-axis handling of eye/dya/cdya/inv", "math/_voigt.py")],
     observe=["hyperelastic.math", "*Space.gradient", "*Space.hessian"])

prop("C06", "Invariants framework: exact first and second derivatives of the energy",
     "For every twice differentiable energy of the three invariants of the right Cauchy-Green tensor, whose partial derivatives are supplied by the model, the framework returns exactly the first and the second derivative of that energy with respect to the right Cauchy-Green tensor. Derivatives which the model leaves out (None) count as zero.",
     ["inputs", "configurations"], "all symmetric positive definite C, all energies W(I1, I2, I3), every admissible combination of supplied and omitted derivatives",
     "the only models used in the tests are polynomials in I1 and I2 with a vanishing d2W/dI2dI2; no test depends on I3 or compares the tangent with a derivative.",
     ["frameworks/_invariants.py", "math/_voigt.py"],
     [("Invariants.gradient / Invariants.hessian chain rule", "frameworks/_invariants.py")],
     state=[("self.I1..I3, self.dWdI*, self.dI*dC", "kinematic cache filled by gradient and consumed by hessian", "frameworks/_invariants.py")],
     observe=["InvariantsFramework.gradient", "InvariantsFramework.hessian"])

prop("C07", "Stretches framework: exact first and second derivatives of the energy",
     "For every twice differentiable symmetric energy of the principal stretches, whose partial derivatives are supplied by the model, the framework returns exactly the first and the second derivative of that energy with respect to the right Cauchy-Green tensor. This includes energies with mixed second derivatives and deformations with two or three coinciding principal stretches, where the limit is returned.",
     ["inputs", "configurations"], "all symmetric positive definite C with principal stretches either equal or farther apart than the coincidence tolerance, all energies, derivatives given as array or as list with omitted entries",
     "tests use an Ogden model (no mixed derivatives) along one finite-element load path and check only that Newton's method converges.",
     ["frameworks/_stretches.py", "math/_voigt.py"],
     [("Stretches.gradient / Stretches.hessian incl. d'Hospital limit", "frameworks/_stretches.py")],
     state=[("self.λ, self.M, self.dWdλC", "spectral cache filled by gradient and consumed by hessian", "frameworks/_stretches.py")],
     observe=["StretchesFramework.gradient", "StretchesFramework.hessian"])

prop("C08", "Generalized-invariant models return exact derivatives w.r.t. the stretches",
     "For every energy of the (normalized) invariants of a generalized strain and every strain-stretch relation, the generalized-invariants model returns exactly the first and second partial derivatives of the energy with respect to the principal stretches, for any subset of supplied invariant derivatives, including those of the third invariant. Embedded in its framework this yields the exact derivatives with respect to the right Cauchy-Green tensor.",
     ["inputs", "configurations"], "all positive stretches, all strain-stretch relations with first and second derivative, all energies W(I1, I2, I3), every admissible combination of omitted derivatives",
     "tests only use polynomials in I1 and I2 and compare a one-dimensional initial slope; the third-invariant terms are never executed.",
     ["models/stretches/_generalized_invariants.py", "frameworks/_generalized.py"],
     [("GeneralizedInvariantsModel.gradient / .hessian", "models/stretches/_generalized_invariants.py")],
     observe=["GeneralizedInvariantsModel", "GeneralizedInvariantsFramework"])

prop("C09", "Generalized strains are consistent and normalized to one small-strain response",
     "The generalized strain and deformation measures return the value and its exact first and second derivatives with respect to the stretch for every non-zero exponent, plus the reference values at the undeformed state. The normalization makes the first and second invariant coincide with the un-normalized ones at the undeformed state and makes the initial (undeformed) elastic response of a given energy independent of the chosen exponent.",
     ["inputs"], "all positive stretches, all non-zero exponents, both strain measures, all energies of the first two invariants",
     "test_generalized checks the initial slope for four exponents, one parameter set and one measure.",
     ["models/generalized/_stretch.py", "models/stretches/_generalized_invariants.py"],
     [("strain / deformation", "models/generalized/_stretch.py"), ("c1, c2, I10, I20 in GeneralizedInvariantsModel.__init__", "models/stretches/_generalized_invariants.py")],
     observe=["models.generalized.strain", "models.generalized.deformation", "GeneralizedInvariantsModel"])

prop("C10", "Built-in models return exact derivatives of their documented energies",
     "For all parameter values, including zeros, the third-order-deformation model returns exactly the first and second partial derivatives of its documented polynomial energy, where an omitted derivative is one that vanishes identically. The Ogden model does so for any number of terms and any non-zero real exponents.",
     ["inputs", "configurations"], "all parameter values and zero patterns, all invariants / stretches, strain offset on or off, any number of Ogden terms",
     "tests use two or three fixed parameter sets; parameter-dependent omission logic and multi-term sums are not covered.",
     ["models/invariants/_third_order_deformation.py", "models/stretches/_ogden.py"],
     [("ThirdOrderDeformation.gradient/.hessian", "models/invariants/_third_order_deformation.py"), ("Ogden.gradient/.hessian", "models/stretches/_ogden.py")],
     observe=["models.invariants.ThirdOrderDeformation", "models.stretches.Ogden"])

prop("C11", "Automatic-differentiation models return the derivatives of the given energy",
     "For every energy function of the three invariants written with differentiable tensor operations, the automatic-differentiation model returns its exact first and second partial derivatives in the documented order, or omits those which vanish identically, and never fails because an invariant enters only linearly, is coupled with another one, or does not enter at all.",
     ["inputs", "programs"], "all energy functions built from differentiable elementwise operations, all batch shapes with at least one axis",
     "the tests use a single energy (Yeoh) which depends non-linearly on the first invariant only.",
     ["models/invariants/_torch.py", "frameworks/_invariants.py"],
     [("TorchModel.gradient / .hessian / ._grad", "models/invariants/_torch.py")],
     observe=["models.invariants.TorchModel"])

prop("C12", "Deformation space: stress and elasticity are exact derivatives of the energy",
     "For a material formulation returning the first and second derivative of an energy with respect to the right Cauchy-Green tensor, the deformation space returns the first Piola-Kirchhoff stress as the exact derivative of the energy with respect to the deformation gradient, and the elasticity tensor as the exact derivative of that stress with respect to the deformation gradient (geometric part included).",
     ["inputs"], "all deformation gradients with positive determinant, all energies / frameworks",
     "tests only check that a Newton iteration converges for one boundary value problem; a wrong tangent component often still converges.",
     ["spaces/_deformation.py", "spaces/_space.py", "math/_voigt.py"],
     [("Deformation.gradient / .hessian", "spaces/_deformation.py"), ("Space.piola", "spaces/_space.py")],
     observe=["DeformationSpace.gradient", "DeformationSpace.hessian"])

prop("C13", "Distortional space: exact derivatives of the isochoric energy",
     "For a material formulation with energy W, the distortional space returns stress and elasticity as exact first and second derivatives of W evaluated at the unimodular part of the right Cauchy-Green tensor, whatever the magnitude of the material parameters. Hence the Kirchhoff stress is trace-free, the material is stress-free in the undeformed state if isotropic, and the energy-conjugate response depends on the distortional part of the deformation only.",
     ["inputs"], "all deformation gradients with positive determinant, all energies / frameworks of any scale",
     "tests only check convergence of one boundary value problem and equality of two implementations on a uniaxial path.",
     ["spaces/_distortional.py", "spaces/_space.py", "math/_voigt.py"],
     [("Distortional.gradient / .hessian", "spaces/_distortional.py")],
     state=[("self.C, I3, Cu, Sb, SbC, invC, S", "kinematic cache filled by gradient and consumed by hessian", "spaces/_distortional.py")],
     observe=["DistortionalSpace.gradient", "DistortionalSpace.hessian"])

prop("C14", "Dilatational space: exact derivatives of the volumetric energy",
     "For a material formulation with energy W, the dilatational space returns stress and elasticity as exact first and second derivatives of W evaluated at the volumetric (spherical, determinant-preserving) part of the right Cauchy-Green tensor. Hence the Cauchy stress is a pure pressure which depends on the volume ratio only.",
     ["inputs"], "all deformation gradients with positive determinant, all energies / frameworks",
     "the only test uses a model whose energy derivative is constant, for which the argument handed to the material is irrelevant.",
     ["spaces/_dilatational.py", "spaces/_space.py", "math/_voigt.py"],
     [("Dilatational.gradient / .hessian", "spaces/_dilatational.py")],
     observe=["DilatationalSpace.gradient", "DilatationalSpace.hessian"])

prop("C15", "Force/area configurations are Piola transforms of one and the same response",
     "For every choice of the force and area configurations, the returned stress and elasticity are the documented Piola transforms of the same Total-Lagrange stress and elasticity (initial-stress part included, in the deformed or undeformed force configuration respectively); without finalization the untransformed reduced-storage tensors are returned. The threaded option does not change any result.",
     ["inputs", "configurations"], "all combinations of force, area, finalize and parallel, for all spaces and all deformation gradients",
     "test_finalize runs the configurations without asserting any value.",
     ["spaces/_space.py", "spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py"],
     [("Space.piola", "spaces/_space.py"), ("Space.__init__ (einsum selection)", "spaces/_space.py")],
     observe=["*Space.gradient", "*Space.hessian"])

prop("C16", "Objectivity, isotropy and symmetry of the constitutive response",
     "A rigid rotation Q superposed on the deformation rotates the first Piola-Kirchhoff stress, P(QF) = Q P(F), and transforms the elasticity tensor accordingly; a rotation of the reference configuration acts as P(FQ) = P(F)Q for the isotropic frameworks. The Cauchy stress is symmetric and the elasticity tensor has major symmetry, for every framework, space and model.",
     ["inputs"], "all rotations, all deformation gradients with positive determinant, all frameworks, spaces and energies",
     "no test evaluates a rotated deformation or the symmetry of a result.",
     ["spaces/_space.py", "spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py", "frameworks/_invariants.py", "frameworks/_stretches.py"],
     [("formulation in C = F^T F, invariants and eigenbases", "spaces/_space.py")],
     observe=["*Space.gradient", "*Space.hessian"])

prop("C17", "Evaluations are pure: no memory of former calls and no modified arguments",
     "Stress and elasticity depend only on the arguments of the call (and the constructor's): any history of earlier evaluations, with other deformations, other batch shapes, other configurations or via another object sharing the same framework, leaves the result unchanged. No evaluation and no math function modifies its input arrays (an explicitly passed output array excepted), and results returned earlier are not altered by later calls.",
     ["histories", "inputs"], "all finite interleavings of gradient and hessian calls on one or several objects sharing a framework or model, all arguments",
     "each test evaluates one object along one history; results are never compared with those of a fresh object.",
     ["spaces/_space.py", "spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "models/stretches/_generalized_invariants.py", "math/_voigt.py"],
     [("gradient() re-run at the start of every hessian()", "frameworks/_invariants.py"), ("fresh copies before every in-place / out= operation", "math/_voigt.py")],
     state=[("self.* caches of spaces, frameworks and models", "values of the last evaluation", "spaces/_distortional.py")],
     observe=["*Space.gradient", "*Space.hessian", "hyperelastic.math"])

prop("C18", "State variables are threaded unchanged through spaces and frameworks",
     "The state variables passed to a stress evaluation reach the model's gradient unchanged, and the updated state variables returned by the model are returned by the framework and the space unchanged. An elasticity evaluation hands the old (passed-in) state variables to both the model's gradient and the model's hessian.",
     ["inputs", "configurations"], "all models (including ones which update their state variables), frameworks, spaces and configurations",
     "all models in the tests pass the state variables through untouched, so old and new are indistinguishable.",
     ["frameworks/_invariants.py", "frameworks/_stretches.py", "frameworks/_generalized.py", "spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py", "models/stretches/_generalized_invariants.py"],
     [("statevars argument of gradient/hessian", "frameworks/_invariants.py"), ("x[-1] of the spaces", "spaces/_distortional.py")],
     observe=["*Space.gradient", "*Space.hessian"])

prop("C19", "Lab load cases and simulations evaluate the incompressible homogeneous response",
     "For every stretch, the uniaxial, biaxial and planar load cases return the documented volume-preserving diagonal deformation gradient, and their stress is the normal force per undeformed area with the hydrostatic pressure eliminated by the traction-free transverse direction, so adding a hydrostatic pressure to the material changes nothing. A simulation evaluates the material built with every parameter assigned to its own label, point by point along the stretch.",
     ["inputs", "configurations"], "all positive stretches, all materials, all parameter lists with their labels",
     "tests only plot the results or compare one fitted parameter set.",
     ["lab/_load_case.py", "lab/_simulation.py"],
     [("defgrad / stress", "lab/_load_case.py"), ("Simulation.stress_curve_fit", "lab/_simulation.py")],
     observe=["lab.Uniaxial", "lab.Biaxial", "lab.Planar", "lab.Simulation.stress"])

prop("C20", "Parameter fits keep parameters, errors, residuals and simulations consistent",
     "After a fit, the optimizer's parameters are the values the least-squares solver returned for the concatenated, masked experiments and their simulations in the given order; the errors are the square roots of the covariance diagonal, the residuals are simulation minus experiment at exactly these parameters, and every simulation carries these parameters, whatever numeric type the initial guess has; the caller's options for the solver reach it. Experiments convert displacement and force to stretch and force per undeformed area with their own length and area.",
     ["inputs", "configurations", "histories"], "all lists of experiments, simulations, masks and initial parameters, repeated fits included",
     "tests compare one fitted parameter vector; errors, residuals, masks other than one, integer guesses and the simulations' state are not asserted.",
     ["lab/_optimize.py", "lab/_curve_fit.py", "lab/_experiment.py", "lab/_simulation.py"],
     [("Optimize.init_curve_fit / curve_fit", "lab/_optimize.py"), ("concatenate_curve_fit", "lab/_curve_fit.py"), ("Experiment.stress / stretch", "lab/_experiment.py")],
     state=[("Optimize.parameters / errors / residuals", "result of the last fit", "lab/_optimize.py")],
     observe=["lab.Optimize.curve_fit", "lab.Optimize.norm_residuals", "lab.Experiment"])

prop("C21", "Plots draw the data of their experiments, simulations and fits",
     "A plot of an experiment or a simulation adds exactly one line, force over displacement or force per undeformed area over stretch, for its own current data to the given axes or to the axes of a new figure, with the caller's line options, label and axis labels (by default its own label and the quantities drawn), and returns this figure and axes; no data are modified. The plot of a fit draws, on one axes and in the given order, every simulation at the fitted parameters and its experiment, and states each parameter with its label, its value and twice its error, the norm of the residuals, the mean relative deviation and the given title.",
     ["inputs", "configurations", "histories"], "all data, parameters and errors, given and new axes, line options, lists of experiments, plots before and after further fits",
     "tests only call the plot functions; nothing of what is drawn is asserted.",
     ["lab/_plotting.py", "lab/_optimize.py"],
     [("LabPlotter.plot_force_displacement / plot_stress_stretch", "lab/_plotting.py"), ("Optimize.plot", "lab/_optimize.py")],
     observe=["lab.Experiment.plot_stress_stretch", "lab.Experiment.plot_force_displacement", "lab.Simulation.plot_stress_stretch", "lab.Optimize.plot"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
