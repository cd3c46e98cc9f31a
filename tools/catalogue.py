#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after every change: both files come out of it)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B /verif/check.py"
S = "src/sympkf/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, level_note=level_note, na=na))


GV = "gated value-graph dataflow over the syntax trees (global value numbering of all paths, loops summarised)"

prop("C01", "Time schemes have the order of accuracy of their name",
     "One step of each Runge-Kutta scheme offered by a model (Euler, RK2, RK4) is consistent with x' = trend(x, t) up to "
     "its nominal order, for every state, time, time step and trend, and each scheme name selects its own scheme. The "
     "leapfrog scheme advances the older of two states by twice the step with the trend of the newer one. A composed "
     "(splitting) scheme applies its fraction steps in order, each one from the result of the previous one.",
     ["inputs", "programs"], "all states, trends, times and time steps; all schemes registered by the library",
     "no test runs a time scheme; an order defect needs a convergence study on non autonomous trends",
     [S + "model/model.py"], [("time schemes and their registry", S + "model/model.py")],
     GV + ": the polynomial of stage coefficients is extracted and Butcher order conditions are compared exactly",
     "order conditions of an explicit Runge-Kutta method on the coefficients found in the code; exact arithmetic")

prop("C02", "Forecast drives the selected scheme over every interval of the window",
     "A forecast performs exactly one step of the selected scheme for each pair of consecutive times of the window, in "
     "order, with the time and duration of that interval and from the state of the previous step. What is saved for a "
     "time of the window, the last one included, is the state at that time; by default all the window is saved and a "
     "single saved time may be given as a scalar. The two drivers (array state or object state) save the same states; "
     "the window made by a model goes from its start (0 by default) to its end, both included, by the time step that was "
     "set, and the stationary model keeps its state.",
     ["inputs", "histories"], "all windows, states, schemes and sets of saved times",
     "no test integrates a model; off-by-one errors of saved times need non uniform windows",
     [S + "model/model.py"], [("forecast and predict", S + "model/model.py")],
     GV + ": loop summaries of the driver compared with the step recurrence",
     "structural equality of the recurrence; float comparison of times is as in Python")

prop("C03", "Ensemble forecasts keep members, order and times",
     "In an ensemble forecast each saved time holds, in the order of the members, the states at that time of the "
     "members' own forecasts, one state per member. Parallel and serial computations give the same result, and lists "
     "of different times are independent objects.",
     ["inputs", "schedules"], "all ensembles, numbers of workers and saved times",
     "no test runs an ensemble, and worker schedules can not be sampled exhaustively",
     [S + "model/model.py"], [("ensemble forecast", S + "model/model.py")],
     GV + " with summaries of multiprocessing.Pool.map as an ordered map", "Pool.map returns results in order (documented)")

prop("C04", "Tangent-linear and propagator runs are finite differences of forecasts",
     "Every perturbation returned by the tangent-linear forecast is (forecast(x+a p) - forecast(x))/a with one amplitude "
     "a, for every saved time and every perturbation, in their order. The i-th column of the computed propagator matrix "
     "is the forecast at the end of the window of the i-th basis vector.",
     ["inputs"], "all states, perturbations, windows and amplitudes",
     "no test calls these drivers", [S + "model/model.py"], [("forecast_tl, make_M", S + "model/model.py")],
     GV + " with linear-combination normal forms", "algebra on the value graph; no numerical error bound")

prop("C05", "Data given by the caller is never modified",
     "No operation of the library (building systems, queries, code generation, the generated models, trends, time schemes, "
     "forecasts, ensembles, diagnostics) changes in place an object it received from the caller: states, perturbations, "
     "lists of equations or functions, closures, options, expressions. Containers shared by several objects or calls "
     "are only read.", ["inputs", "histories", "programs"], "all entry points, arguments and sequences of calls",
     "aliasing defects need a specific history (reuse of the same object); tests build fresh objects",
     [S + "model/model.py", S + "symbolic/pkfcas.py", S + "symbolic/util.py", S + "symbolic/model_builder.py"],
     [("all public entry points and generated code", S)],
     GV + " with may-alias roots of every in-place write, in library code and in the symbolically expanded templates",
     "may-alias through attributes, elements, views, loops and calls; foreign calls listed as readers")

prop("C06", "Invalid inputs are refused before anything is changed",
     "Input that is outside the domain of an operation is refused by an exception and leaves every object as it was: unknown "
     "scheme, saved time outside the window, unknown prognostic function, closure or system of the wrong type, functions of "
     "different coordinates, labels of the wrong form. Input of the domain is never refused by these guards.",
     ["inputs"], "all inputs of the guarded entry points", "tests only use valid inputs",
     [S + "model/model.py", S + "symbolic/pkfcas.py", S + "symbolic/util.py"], [("guards of the entry points", S)],
     GV + ": the guard formula of each raise is compared propositionally; raise dominates the effects",
     "propositional equivalence of guard formulas on atomic tests")

prop("C07", "The expectation operator is linear and commutes with derivation and integration",
     "The expectation of a sum is the sum of the expectations, non random factors come out of it, it commutes with "
     "partial derivatives and integrals (whatever the number of variables), acts side by side on equations and element by "
     "element on matrices, is the identity on non random expressions and is idempotent. This holds for every expression, "
     "after expansion of the products.", ["inputs"], "all symbolic expressions",
     "tests check a few expressions; mixed derivatives and nested structures are not covered",
     [S + "symbolic/random.py"], [("Expectation evaluation rules", S + "symbolic/random.py")],
     GV + ": the evaluation function is specialised per structure of its argument",
     "one obligation per structure class; sympy's structure classes are as documented")

prop("C08", "Randomness of an expression is that of its parts",
     "An expression is classified as random exactly when one of its parts is (function arguments, terms, factors, sides of an "
     "equation, elements of a matrix, differentiated or integrated expression), a symbol when it is the random variable, and an "
     "expectation never is. Structures that are not supported are refused.",
     ["inputs"], "all symbolic expressions", "tests classify a handful of expressions", [S + "symbolic/random.py"],
     [("israndom", S + "symbolic/random.py")], GV + ": specialisation per structure, propositional equivalence",
     "one obligation per structure class")

prop("C09", "Operations on equations act on both sides",
     "Adding, subtracting, negating, scaling, substituting in or expanding an equation performs the same operation on both sides "
     "and gives an equation. Isolating a term solves the equation for it. The tools that compare term sets, extract the trend of an "
     "equation, list the orders of a derivative or the upper triangle of a matrix describe all and only the elements of their argument, "
     "and every substitution left unevaluated in an expression is evaluated at its own point.",
     ["inputs"], "all equations and expressions", "tests sample one or two equations", [S + "symbolic/util.py", S + "symbolic/tool.py"],
     [("Eq and expression tools", S + "symbolic/util.py")])

prop("C10", "A system of equations splits its symbols into disjoint exhaustive classes",
     "For every system of evolution equations, the functions that occur in it are split into prognostic functions (those with a time "
     "trend), constant functions (without time) and exogenous functions (the others), and its free symbols into time, space "
     "coordinates and constant parameters; the classes are disjoint and cover everything that occurs. The dynamics and coordinates are "
     "those of the equations, in the order they were given.", ["inputs"], "all systems of equations",
     "tests use two or three systems and check a few fields", [S + "symbolic/util.py"], [("PDESystem", S + "symbolic/util.py")])

prop("C11", "Results depend on the value of expressions, not on their identity in memory",
     "Comparisons between symbolic expressions, symbols, equations, strings or numbers are by value: two equal objects that are "
     "not the same object in memory are treated the same way.", ["inputs", "histories"],
     "all expressions, whatever the state of the symbolic cache",
     "identity usually coincides with equality through the cache, so tests pass by luck", [S + "symbolic/pkfcas.py", S + "symbolic/util.py"],
     [("comparisons in the symbolic package", S + "symbolic")])

prop("C12", "Cached results stay coherent with the system they describe",
     "Every derived system or quantity that is computed on demand and kept is the same at each query, and is computed again after the "
     "data it depends on is changed (a closure added or replaced). Nothing hands out or shares its internal cache so that another "
     "object or query changes it.", ["histories"], "all sequences of queries and updates",
     "tests do one query per object", [S + "symbolic/pkfcas.py", S + "symbolic/util.py"], [("lazy properties", S + "symbolic/pkfcas.py")])

prop("C13", "Closure terms do not depend on earlier queries",
     "The closure of correlation derivatives answers every query with terms that depend only on its configuration and the order asked: "
     "neither the order of the queries nor their number changes the answer, and each order returned contains all and only the terms asked for.",
     ["histories", "inputs"], "all histories of queries", "tests do one query", [S + "symbolic/pkfcas.py"], [("Closure queries", S + "symbolic/pkfcas.py")])

prop("C14", "Each PKF representation is complete and clean",
     "The parametric system in each representation (metric, diffusion, aspect) contains exactly the dynamics of the means, of the "
     "variances, of the tensors of its representation and of the cross-covariances of multivariate systems, one equation per unknown. "
     "The external closure is applied to every one of them, the expectations of prognostic functions are replaced by the functions "
     "themselves and the cross covariance of a pair does not depend on its order.", ["inputs", "programs"],
     "all systems, representations and closures", "tests look at one univariate system", [S + "symbolic/pkfcas.py"],
     [("SymbolicPKF representations", S + "symbolic/pkfcas.py")])

prop("C15", "Metric, diffusion and aspect tensors are consistent changes of variable",
     "The metric, aspect and diffusion tensors of a representation are inverse of each other (up to the factor two of the diffusion "
     "tensor), and the evolution equation of each is the exact image of the metric equation under this change of variable. Tensor "
     "labels are symmetric and their components are indexed by the space coordinates in every dimension.", ["inputs"],
     "all systems and dimensions", "tests cover one dimension", [S + "symbolic/pkfcas.py"], [("tensor representations", S + "symbolic/pkfcas.py")])

prop("C16", "Statistics of the normalised error are exact",
     "The relations used to eliminate statistics of the normalised error follow from its unit variance: zero mean, zero first order "
     "correlation with its derivative, metric tensor as second order term, third order terms in function of the derivatives of the metric and skewness.",
     ["inputs"], "all coordinates and dimensions", "tests cover one case", [S + "symbolic/pkfcas.py"], [("internal closure", S + "symbolic/pkfcas.py")])

prop("C17", "Each statistic follows its definition through the derivation pipeline",
     "The error system is the equations minus their mean equations, the mean (first and second order) systems are the expectation of the Reynolds-decomposed "
     "equations, the variance, metric and cross-covariance systems are the time derivatives of their definitions with the trends of the error "
     "replaced, in an order such that no replaced term is left.", ["inputs"], "all systems", "tests compare one system with printed formulas",
     [S + "symbolic/pkfcas.py"], [("derivation pipeline", S + "symbolic/pkfcas.py")])

prop("C18", "Finite-difference stencils are on the grid, symmetric and sufficient",
     "The stencil used for a derivative of any order and accuracy in any set of coordinates has enough points for the order of its Taylor "
     "closure, only at whole-index offsets, symmetric around the point; derivatives of different coordinates are treated one after the other and the "
     "result replaces the derivative, higher orders first.", ["inputs"], "all derivatives, orders and dimensions", "tests do not cover finite differences of order 3 and more",
     [S + "symbolic/finite_difference.py"], [("finite differences", S + "symbolic/finite_difference.py")])

prop("C19", "Shifted terms are translated to the right array index and grid step",
     "In generated finite-difference code, a shift of k grid steps along a coordinate is read at index offset +k on the axis of that "
     "coordinate, periodically, the offset of the other axes being unchanged, and each grid step symbol becomes the step of its own axis. "
     "Computation of steps and mesh arrays use the same axis convention.", ["inputs"], "all coordinates sets and shifts", "tests check a single index string",
     [S + "symbolic/finite_difference.py", S + "symbolic/templates"], [("code generation", S + "symbolic/finite_difference.py")])

prop("C20", "Every name put in generated code is a valid, sanitised identifier",
     "Any name of a function, coordinate, parameter or derivative, whatever its LaTeX decoration (backslash, braces, ^ and comma), reaches the generated code only "
     "in its sanitised form, the same one everywhere, so that different symbols are different variables. This form is the name without \\ { }, with _ for ^ and the comma, and every "
     "name of the program is an identifier that is no keyword. A name made from another one is taken whole, never parsed nor split.", ["inputs", "programs"], "all names",
     "tests check a few names", [S + "symbolic/util.py", S + "symbolic/model_builder.py", S + "symbolic/finite_difference.py"],
     [("name cleaning", S + "symbolic/util.py")])

prop("C21", "Generated models are closed and consistent",
     "In the source code generated for a system of equations (finite difference or manifold) every name is defined before its use, and an equation which is no "
     "trend is refused, whatever the numbers of prognostic, exogenous and constant functions, constants, coordinates and derivatives. Component i of the state, of "
     "its trend and of the lists of names are those of the prognostic function i, in which each symbol of the right hand side reads what it denotes: a component "
     "of the state, an exogenous function, a parameter (the value given, nan otherwise), or a derivative of this function. The program, the class name and the "
     "module written do not depend on which attributes of the builder were read before, and the model has the time scheme asked for.",
     ["programs", "inputs", "histories"], "all generated programs", "tests compare one generated text", [S + "symbolic/model_builder.py", S + "symbolic/templates"],
     [("templates and builders", S + "symbolic/templates")])

prop("C22", "Results and generated code are deterministic",
     "The text of the generated code, the layout of the state, the order of equations, functions and coordinates, the printed summary of a system and the result "
     "of any public operation do not depend on the iteration order of sets, on hashes, on addresses, on the clock or on random draws: two runs give the same.", ["schedules", "programs"], "all hash seeds and systems",
     "each test run uses one hash seed", [S + "symbolic/model_builder.py", S + "symbolic/util.py", S + "symbolic/finite_difference.py"],
     [("ordering of sets", S + "symbolic/model_builder.py")])

prop("C23", "Local Gaussian and heterogeneous closures expand the right correlation",
     "The correlation between x and y is |s_x|^(1/4) |s_y|^(1/4) / |(s_x+s_y)/2|^(1/2) exp(-||x-y||^2 in (s_x+s_y)^-1) with the aspect tensor s = the inverse of "
     "the metric, the same with half of the exponent in terms of the diffusion tensor, and exp(-||x-y||^2/2 in the metric) for the local Gaussian; it is 1 when "
     "x = y. The closure of E[eps D^alpha eps] is alpha! times the coefficient of dx^alpha of the expansion of this correlation at x + dx, whatever was computed "
     "before. The change to the metric eliminates the aspect with -g_ij = closure of E[eps D_ij eps], for each i <= j, in all terms.", ["inputs"], "all dimensions and orders", "tests look at one order in one dimension",
     [S + "symbolic/pkfcas.py"], [("correlation closures", S + "symbolic/pkfcas.py")])

prop("C24", "Public operations never fail on an undefined name or missing attribute",
     "Every name, attribute of the library's own objects and exported symbol used by a public operation exists on every path and is bound before its use; "
     "every call of the library's own functions matches their parameters.", ["inputs", "programs"], "all paths of all functions", "tests execute a part of the lines",
     [S], [("all modules", S)])


prop("C25", "Predefined dynamics are the equations of their names",
     "Each predefined dynamics is the evolution equation of its name for all its fields and coefficients: u_t = -u u_x + k u_xx (Burgers), "
     "-u u_x - k u_xx - e u_xxxx (Kuramoto-Sivashinsky), advection by every component of a velocity that does not depend on time along its own coordinate (one to "
     "three dimensions), diffusion k u_xx and, in two dimensions, div(K grad u) with a symmetric tensor K. The ready-made Burgers model forecasts the system in aspect "
     "form on the number of grid points asked for, its only open term being closed by 3 g^2 - 2 g_xx of the metric g, expressed in the aspect 1/g.", ["inputs"], "all fields and coefficients; all predefined dynamics",
     "no test reads the predefined dynamics: they are only shown",
     [S + "symbolic/dynamics.py", S + "dynamics/burgers.py"], [("predefined dynamics", S + "symbolic/dynamics.py")],
     GV + ": the expressions of the modules are brought to a normal form of differential polynomials and compared with the reference equation",
     "exact algebra (product rule, Laurent polynomials), up to names of coefficients")

prop("N01", "PKF forecasts agree with the statistics of ensembles",
     "For small errors the forecast of the parametric system (mean, variance, tensors) of a dynamics agrees with the mean, variance and tensors estimated "
     "from a large ensemble of forecasts of this dynamics.", ["inputs", "histories"], "all dynamics, windows and ensembles", "tests do not run ensembles",
     [S + "symbolic/pkfcas.py", S + "model/model.py"], [("PKF systems and ensembles", S + "symbolic/pkfcas.py")],
     na="statistical agreement up to sampling and closure errors: it bounds run-time numbers, no sound static argument reaches them (its structural part is C14-C17)")

prop("N02", "Generated models converge to the solution of the equations",
     "When the grid and the time step are refined (with their ratio kept), the forecast of a generated finite difference model converges to the solution "
     "of the equations at the nominal order.", ["inputs"], "all well posed systems and refinements", "tests do not run generated models",
     [S + "symbolic/finite_difference.py", S + "model/model.py"], [("finite differences", S + "symbolic/finite_difference.py")],
     na="convergence needs stability, which depends on the dynamics and on run-time steps; the consistency part is claimed by C01, C18 and C19")

prop("N03", "Derivations always terminate",
     "The derivation of a parametric system, of closure terms or of generated code ends for every polynomial system of equations.", ["inputs"],
     "all systems", "a test only shows termination on its input", [S + "symbolic/pkfcas.py", S + "symbolic/finite_difference.py"],
     [("substitution loops", S + "symbolic/pkfcas.py")],
     na="the ranking functions are numbers of derivatives of expressions rewritten by sympy (doit, expand, series): their decrease depends on the behaviour of "
        "sympy on the expression, not on the shape of the code of this repository")

prop("N04", "The change of variable to the metric takes the physical root",
     "When a closure is written in terms of another tensor by solving the relation between the tensors, the solution kept is the positive definite one.",
     ["inputs"], "all closures", "tests use closures with a single solution", [S + "symbolic/pkfcas.py"], [("change to the metric", S + "symbolic/pkfcas.py")],
     na="which roots the solver of sympy returns, and in which order, is a run-time fact about sympy; the equations given to the solver are claimed by C23")

prop("N05", "Different ways to the same statistics simplify to the same formula",
     "The dynamics of a statistic derived through the metric, aspect or diffusion, or through its definition by hand, have the same value for every dynamics "
     "after simplification.", ["inputs"], "all dynamics", "tests compare a few formulas", [S + "symbolic/pkfcas.py"], [("derivations", S + "symbolic/pkfcas.py")],
     na="equality of values of expressions built by sympy at run time for an arbitrary dynamics; the steps that make it true are claimed one by one in C14-C17")

TECH = {
    "C06": (None, "guards compared with the stated domain in both directions; labels of multi-indices in 1 to 3 dimensions"),
    "C09": (GV + ": side-wise terms of the operations, membership formulas of the enumerations", None),
    "C10": (GV + ": membership formulas of the classes compared propositionally with their definition", None),
    "C11": ("abstract kinds of the operands of every identity test (singleton, symbolic object, unknown), over the syntax trees", None),
    "C12": (GV + ": typestate of kept values (absent, computed, stale), dependency sets of the computations and alias roots of the in-place writes", None),
    "C13": (GV + ": dependence of stored answers on earlier state, and partial evaluation over dimensions and orders",
            "history rules on all paths; completeness of the answers for dimensions 1 to 3 and bounded orders"),
    "C14": (GV + ": chains of substitutions of each equation of each representation, quantified over fields and couples", None),
    "C15": (GV + ": matrix monomials of the changes of variable, component indices by partial evaluation over the dimension",
            "matrix identities for all dimensions; indices in dimension 1 to 3"),
    "C16": (GV + ": linear forms of the relations compared with the consequences of the unit variance; label conversions by partial evaluation",
            "relations and conversions in dimension 1 to 3; tree for all degrees"),
    "C17": (GV + ": typestate of the steps of each derivation on every alternative of its expression", None),
    "C18": (GV + ": partial evaluation of the stencil over orders and coordinates, exact Taylor consistency of the points",
            "derivatives of order up to 12 (24 thorough), one to three coordinates"),
    "C19": (GV + ": partial evaluation of texts over axes, shifts and name shapes; analysis of the generated programs as source",
            "up to 3 axes (4 thorough); generated programs of a bounded family of systems"),
    "C20": (GV + ": composition of character replacements read as a term; names of the programs computed from the parsed templates",
            "cleaning for names of any length; programs of a bounded family of systems"),
    "C21": ("programs computed from the terms of the builders and the parsed templates for abstract systems, then flow-sensitive definite assignment and "
            "dataflow on these programs", "programs of a bounded family of abstract systems (number of functions, constants, coordinates, derivatives)"),
    "C22": ("interprocedural abstract interpretation of iteration order (set order, ties of a sort, hashes, clock, random) over the syntax trees", None),
    "C23": (GV + ": normal form of the correlation (determinant powers, quadratic form), coefficients by partial evaluation over dimensions and orders",
            "correlations for all dimensions; coefficients in dimension 1 to 3 and bounded orders"),
    "C24": ("flow-sensitive definite assignment, attribute and signature resolution over the whole package", None),
}


def main():
    import importlib.util
    for p in P:
        t, n = TECH.get(p["id"], (None, None))
        p["technique"], p["level_note"] = p["technique"] or t, p["level_note"] or n
    built = {f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "checks")) if f[0] == "c" and f[1:3].isdigit()}
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
            }, ensure_ascii=False) + "\n")
    checks, nas = [], []
    for p in P:
        i = p["id"]
        if p["na"] or i not in built:
            nas.append({"property": i, "reason": p["na"] or "no check of this property is registered yet"})
            continue
        checks.append({"property": i, "quick_cmd": f"{PY} {i} --tier quick", "thorough_cmd": f"{PY} {i} --tier thorough",
                       "technique": "static analysis: " + (p["technique"] or GV), "level": "other",
                       "level_note": p["level_note"] or "every obligation decided on all paths of the current source"})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import jinja2, ast'", "checks": checks,
                   "not_applicable": nas}, fh, indent=1, ensure_ascii=False)
        fh.write("\n")


if __name__ == "__main__":
    main()
