#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, stmt, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=stmt,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
TH="ibl/thwaites_method.py"; HE="ibl/head_method.py"; IB="ibl/ibl_method.py"; IC="ibl/initial_condition.py"
SF="ibl/skin_friction.py"; AN="ibl/analytic/_analytic_2d_base.py"; FS="ibl/analytic/_falkner_skan.py"; BL="ibl/analytic/_blasius.py"
XR="ibl/reference/_xfoil_reader.py"; XD="ibl/reference/_xfoil_data.py"; SO="ibl/reference/_stanford_1968.py"; SS="ibl/reference/_stanford_1968_station.py"

p("C01","Thwaites transpiration velocity is the streamwise derivative of u_e*delta_d",
 "For a solved Thwaites analysis (linear or nonlinear, every built-in data fit, or a custom fit that supplies the true derivative of its shape function), v_e(x) equals d(u_e*delta_d)/dx along the growth law being integrated. It holds at every station whose pressure-gradient parameter lambda lies strictly inside the range of the data fit and, for Cebeci-Bradshaw, away from lambda=0 where that published fit jumps.",
 ["inputs","configurations"],"all nu>0, momentum thickness>0, u_e>0, du_e, d2u_e of either sign, every fit and both variants, lambda inside the fit range",
 "Tests compare v_e with stored figures for a handful of flows (flat plate, stagnation, linear) on which several terms of the derivative vanish or cancel; they never vary u_e, u_e', u_e'', nu and state independently.",
 [TH,IB],[("product/chain rule expansion of d(u_e H delta_m)/dx","ThwaitesMethod.v_e"),("derivative of the shape fit","_ThwaitesFunctions.shape_p"),("growth law reused as d(delta_m^2/nu)/dx","ThwaitesMethod._ode_impl")],["v_e","u_e","delta_d"])
p("C02","Thwaites growth law is the momentum integral equation",
 "The rate handed to the integrator for delta_m^2/nu, times u_e, equals 0.45-6*lambda for the linear variant and 2*(S-lambda*(H+2)) for the nonlinear one, where lambda=delta_m^2*u_e'/nu and S, H are the values the selected data fit reports for that lambda. The only permitted deviation is the edge-velocity regularisation, i.e. dividing by a velocity that differs from u_e by at most 1e-3.",
 ["inputs","configurations"],"all lambda of either sign, all u_e>=0, nu>0, delta_m>0, both variants, every built-in and custom fit",
 "Tests integrate a few similarity flows and compare to about 1e-3; a wrong coefficient that matters only off those flows, or with a different nu or fit, passes.",
 [TH],[("F(lambda) linear","ThwaitesMethodLinear._calc_f"),("F(lambda) nonlinear","ThwaitesMethodNonlinear._calc_f / _ThwaitesFunctions.f"),("division by u_e","ThwaitesMethod._ode_impl"),("lambda","ThwaitesMethod._calc_lambda")],["the rate function passed to the ODE integrator"])
p("C03","Thwaites thicknesses, shape factors and wall shear are mutually consistent",
 "At every station of a solved Thwaites analysis delta_d equals shape_d*delta_m, shape_d is the data fit's H and tau_w equals rho*nu*u_e*S/delta_m at the local lambda=delta_m^2*u_e'/nu, and shape_k*delta_m equals delta_k. delta_m is the square root of nu times the integrated quantity.",
 ["inputs","configurations"],"all stations, nu>0, rho, u_e, u_e', integrated state>0, all fits, scalar and array arguments",
 "Tests check each quantity against reference curves for one nu and rho at a few stations; consistency between the reported quantities for arbitrary nu, rho and state is never asserted.",
 [TH],[("derived quantities","ThwaitesMethod.delta_d/delta_m/shape_d/shape_k/tau_w")],["delta_d","delta_m","delta_k","shape_d","shape_k","tau_w"])
p("C04","The shape-slope of every Thwaites data fit is the derivative of its shape fit",
 "For each data fit (White, Cebeci-Bradshaw, Drela, tabulated spline, and a custom 2-tuple whose slope is approximated) the shape slope at any lambda strictly inside the fit range is the derivative of the shape function there (Cebeci-Bradshaw: except at lambda=0). For a custom 2-tuple fit the approximation is exact for every polynomial shape function of degree at most four, and for a 3-tuple the supplied function is used.",
 ["inputs","configurations"],"all lambda strictly inside the fit range; all polynomial custom shape functions up to degree 4",
 "Tests sample finite differences at a few lambda with tolerances of 1e-5 to 1e-3 and do not cover every spline interval or both branches.",
 [TH],[("hand-differentiated fits","_ThwaitesFunctions*.shape_p"),("finite-difference closure","ThwaitesMethod.set_data_fits")],["v_e","data fit shape/shape_p"])
p("C05","Data fits saturate element by element outside their range",
 "Evaluating a data fit's shear, shape or shape slope at any lambda outside the fit's range returns the value at the nearest end of the range; elements inside the range are evaluated as they are. This holds independently for every element of an array argument, whatever the other elements are and whether or not they are whole numbers, and the argument is not modified.",
 ["inputs"],"all scalar lambda, all arrays (up to 3 elements symbolically), every fit",
 "Tests pass scalars or arrays that violate at most one end of the range at a time.",
 [TH],[("range check and clamp","_ThwaitesFunctions._check_range")],["shape_d","tau_w","data fit shear/shape/shape_p"])
p("C06","Built-in Thwaites data fits are the published correlations",
 "For every lambda in its range the White, Cebeci-Bradshaw and Drela fits return the published correlation for S and H, and the spline fit is a twice continuously differentiable cubic interpolant that passes through every tabulated S and H. In every built-in fit S strictly increases with lambda over [-0.09, 0.1] and S and H are positive for lambda in [-0.088, 0.1].",
 ["inputs"],"all lambda in the fit ranges (White, Drela: up to 0.25)",
 "Tests sample a fixed grid of lambda; monotonicity and positivity are universally quantified statements about the whole interval.",
 [TH],[("fit functions","_ThwaitesFunctionsWhite/CebeciBradshaw/Drela/Spline")],["data fit shear/shape"])
p("C07","A Thwaites solve ends as separated exactly where separation is reached",
 "The separation criterion offered to the integrator is positive at every state whose fitted shear is positive and whose lambda lies above the lower end of the fit range, zero where the shear vanishes in range, and negative once the fitted shear is negative or lambda is below the range; it is terminal. Hence a solve that runs past that point reports separation at it, for every built-in fit and for custom fits (whose range is unlimited).",
 ["inputs","configurations"],"all states delta_m^2/nu>0, all u_e', every fit, both variants",
 "Tests reach separation only with one decelerating flow and loose location tolerances; fits that clamp at the end of their range make the criterion flat or keep it positive, which no test drives.",
 [TH,IB],[("separation event","_ThwaitesSeparationEvent"),("event registration when fits change","ThwaitesMethod.set_data_fits")],["solve(): status, x_end","events passed to the ODE integrator"])
p("C08","Head separation triggers exactly at the critical shape factor in force",
 "For every state, the separation criterion offered to the integrator by the turbulent method is positive when the shape factor is below the critical value, zero at it and negative above it, and it is terminal. The critical value in force is the most recently set one (2.4 by default) and any earlier critical value has no effect.",
 ["inputs","histories"],"all critical values >1, all states, any sequence of up to three changes of the critical value with solves in between",
 "Tests set one critical value once; sequences of changes and the sign on both sides of the threshold are not exercised.",
 [HE,IB],[("event","_HeadSeparationEvent"),("replacement of events","HeadMethod.set_shape_d_critical, IBLMethod._set_kill_event")],["solve(): status, x_end","events passed to the ODE integrator"])
p("C09","solve() reports faithfully how the integration ended",
 "Whatever the ODE integrator returns, solve() reports: reached-end with the last abscissa and the state there when it ran to the end; the status and message of the terminal event that fired, its location and the state there, when an event (built-in or user) stopped it; and unsuccessful with unknown status at the start location otherwise. Events that only observe are never the reason; user events combine with the built-in one, as the criterion of either is a single number. After a solve that is unsuccessful or raises, every solution query raises ValueError instead of returning data from an earlier solve; before any solve likewise.",
 ["fault_sequences","inputs"],"all integrator outcomes (success/failure, status -1/0/1, any one of up to 3 events fired at any location), both methods",
 "The integrator practically never fails in tests and user events are not combined with built-in ones there.",
 [IB,TH,HE],[("classification of the integrator result","IBLMethod.solve"),("guards in queries","ThwaitesMethod/HeadMethod queries")],["IntegrationResult.x_end/f_end/status/message/success","v_e, delta_d, delta_m, shape_d, tau_w"])
p("C10","A solve is independent of earlier solves and leaves caller data untouched",
 "Each solve() integrates, to a relative accuracy of 1e-6 or better, from the requested start to the requested end and monitors exactly the method's own separation criterion plus the termination events passed to that call, no matter what was solved before on the same object. The caller's event list is not modified, and results already returned keep their values. After a solved and queried object is configured differently and solved again, every rate, initial state, criterion and query is that of an object configured that way from the start.",
 ["histories"],"all sequences of up to three solves with any mixture of no event, a single event or a list of up to two events, both methods",
 "Every test builds a fresh object and solves once.",
 [IB],[("event list assembly","IBLMethod.solve"),("event storage","IBLMethod._kill_events")],["events, span and initial state passed to the ODE integrator","IntegrationResult"])
p("C11","Configured initial conditions are what the integration starts from",
 "The integration starts from delta_m^2/nu (Thwaites) or from momentum thickness and shape factor (Head) of the configured initial condition: the values last assigned to the object, or the stagnation condition evaluated with the viscosity and edge-velocity gradient in force at the start location of that solve. This holds for every order of assigning viscosity, velocity, initial condition and initial values before the solve, and the initial values read back as assigned.",
 ["histories","inputs"],"all nu>0, delta_m>0, H>1, du_e>0 and every order of the setters (known exception: see KNOWN_FINDINGS for Head shape factor assigned before momentum thickness)",
 "Tests use one fixed order of setters per method and compare only final curves.",
 [IB,TH,HE,IC],[("initial state","_ode_setup of both methods"),("condition refresh at solve","IBLMethod.solve"),("setters","initial_delta_m, initial_shape_d, set_initial_condition, nu")],["initial state passed to the ODE integrator","initial_delta_m","initial_shape_d"])
p("C12","Stagnation start condition is the Falkner-Skan stagnation-point solution",
 "For every positive viscosity and edge-velocity gradient the stagnation condition satisfies delta_m^2*du_e/nu = 0.0855 (to 0.1 percent), shape factors 2.2162 and 1.6257, and delta_d = shape_d*delta_m, delta_k = shape_k*delta_m; delta_m follows later changes of viscosity or gradient. A manual condition returns exactly the thicknesses it was given and their ratios as shape factors.",
 ["inputs","histories"],"all nu>0, du_e>0, all reassignments of either",
 "Tests use a single (nu, du_e) pair.",
 [IC],[("closed-form stagnation values","FalknerSkanStagCondition"),("manual values","ManualCondition")],["InitialCondition.delta_d/delta_m/delta_k/shape_d/shape_k"])
p("C13","Edge velocity, first and second derivative are mutually consistent",
 "However the edge velocity is specified (callable with or without derivatives, object with a derivative method, point pairs, or scalar start value plus gradient points) du_e is the streamwise derivative of u_e and d2u_e that of du_e, supplied derivatives being used as given; finite-difference fallbacks are exact for polynomials of degree up to four. Point data are interpolated at every given point, and with gradient points u_e at the first point equals the given start value. Setting a new velocity replaces all three.",
 ["inputs","configurations","histories"],"all polynomial velocities up to degree 4, all point sets of 2 to 4 points, all locations inside them, all forms of specification",
 "Tests check sine or polynomial samples at fixed points with tolerances that hide dropped stencil terms for low-order data and do not cover re-specification.",
 [IB],[("finite-difference stencils, spline construction","IBLMethod.set_velocity")],["u_e","du_e","d2u_e"])
p("C14","Invalid velocity or data-fit specifications are rejected without side effects",
 "A velocity specification that is not usable (derivative without the lower one, non-callable derivative of a callable velocity, points that are not two equally long one-dimensional vectors of at least two values, scalar without gradient points, unknown form) or an unknown or non-callable data fit raises ValueError. After such a rejection the object behaves exactly as before the call.",
 ["inputs","histories","configurations"],"all combinations of specification kinds per argument (absent, callable, non-callable, scalar, point pairs of each malformed shape), on fresh and on configured objects",
 "Tests try some invalid forms on fresh objects and never look at the object afterwards.",
 [IB,TH],[("argument checks","IBLMethod.set_velocity, IBLMethod.__init__, ThwaitesMethod.set_data_fits")],["ValueError","u_e","du_e","d2u_e","data fit values"])
p("C15","Head rates satisfy the momentum integral and entrainment equations",
 "For every state with shape factor above 1.11 and edge velocity at least 0.001, the rates given to the integrator satisfy d(delta_m)/dx = c_f/2 - (H+2)*delta_m*u_e'/u_e with the Ludwieg-Tillman c_f, and d(u_e*delta_m*H1)/dx = u_e*E(H1) with Head's entrainment relation E(H1)=0.0306*(H1-3)^-0.6169. The reported wall shear is rho*u_e^2*c_f/2 with the same c_f.",
 ["inputs"],"all H in (1.11, 8], delta_m>0, nu>0, u_e>=0.001, any u_e', both branches of the shape-entrainment relation",
 "Tests compare integrated curves of two experiments to within a few percent.",
 [HE,SF],[("right-hand side","HeadMethod._ode_impl"),("wall shear","HeadMethod.tau_w"),("skin friction","ludwieg_tillman")],["rate function passed to the ODE integrator","tau_w"])
p("C16","Head transpiration velocity is the streamwise derivative of u_e*delta_d",
 "For a solved turbulent analysis v_e(x) equals d(u_e*delta_d)/dx along the rates being integrated, with delta_d = shape_d*delta_m, at every station with shape factor above 1.11 and edge velocity at least 0.001. Momentum thickness and shape factor are the integrated state and shape_k*delta_m equals delta_k.",
 ["inputs"],"all states with H>1.11, u_e>=0.001, any u_e', nu>0",
 "Tests check v_e only for one flow, against the same expression.",
 [HE],[("product rule","HeadMethod.v_e"),("state access","HeadMethod.delta_m/shape_d/delta_d")],["v_e","u_e","delta_d","delta_m","shape_d"])
p("C17","Head shape-entrainment relations are inverse, monotone and continuous",
 "Over shape factors from 1.11 to 8 the entrainment shape factor strictly decreases with the shape factor, its two branches meet at 1.6, and converting back returns the original shape factor; the slope used in the equations is its derivative. The entrainment velocity is positive and strictly decreases with the entrainment shape factor.",
 ["inputs"],"all H in [1.11, 8], all H1 > 3.33, scalar and array arguments mixing both branches",
 "Tests sample a grid on each branch; monotonicity, inverse and continuity are statements about all values including branch switches.",
 [HE],[("piecewise power laws","HeadMethod shape-entrainment helpers")],["shape/entrainment relations","rates passed to the integrator"])
p("C18","Skin-friction correlations follow the published formulas and stay physical",
 "Ludwieg-Tillman c_f=0.246*Re^-0.268*10^(-0.678H), White c_f=0.3*exp(-1.33H)*(log10 Re)^-(1.74+0.31H) and Felsch c_f=0.058*Re^-0.268*(0.93-1.95*log10 H)^1.705 hold for every Re>10 and H from 1 up to separation. Each is positive and strictly decreases with Re at fixed H and with H at fixed Re; Felsch is zero (to rounding) for every H at or beyond its separation value 2.9986 and never raises or turns negative.",
 ["inputs"],"all Re in (10, 1e8), all H in [1, 8], scalars and arrays mixing attached and separated values",
 "Tests sample fixed tables.",
 [SF],[("correlations","ibl.skin_friction")],["ludwieg_tillman","felsch","white"])
p("C19","Analytic similarity solutions satisfy the boundary-layer equations",
 "For the Blasius and Falkner-Skan solutions the reported velocities satisfy continuity u_x+v_y=0 and x-momentum u*u_x+v*u_y = u_e*u_e' + nu*u_yy at every point x>0, y>=0 inside the solved similarity range, with u=v=0 at the wall and u_e = u_ref*x^m.",
 ["inputs","configurations"],"all u_ref>0, nu>0, beta in [-0.19884, 2), all x>0, y>=0; the similarity function is any solution of the Falkner-Skan ODE",
 "Tests compare u and v at tabulated eta for fixed u_ref, nu and x; no test relates v to u through the equations.",
 [AN,FS,BL],[("similarity transform","_g, eta, u, v, u_e")],["u","v","u_e","eta"])
p("C20","Analytic integral parameters satisfy the integral boundary-layer equations",
 "For every x>0 the analytic solutions satisfy v_e = d(u_e*delta_d)/dx, the momentum integral equation tau_w/rho = d(u_e^2*delta_m)/dx + u_e*u_e'*delta_d, and the kinetic energy integral equation dissipation/rho = (1/2)*d(u_e^3*delta_k)/dx; shape_d=delta_d/delta_m, shape_k=delta_k/delta_m and tau_w = rho*nu*du/dy at the wall. tau_w and dissipation are proportional to density.",
 ["inputs","configurations"],"all u_ref, nu, rho>0, beta in [-0.19884,2), x>0, all similarity integrals",
 "Tests compare with tabulated values at one u_ref, nu, rho.",
 [AN,FS,BL],[("integral parameters","delta_d/m/k, shape_d/k, tau_w, dissipation, v_e")],["v_e","delta_d","delta_m","delta_k","shape_d","shape_k","tau_w","dissipation"])
p("C21","Analytic solutions integrate the right similarity problem",
 "The stored profile is the integration of f'''+f*f''+beta*(1-f'^2)=0 from f(0)=f'(0)=0, f''(0)=fw_pp to eta_inf, user-supplied fw_pp and eta_inf being honoured exactly, every shooting iteration integrates the same equation over the trial range, and a range found by the search is positive. From that profile eta_d=eta_inf-f(eta_inf), eta_m follows from the momentum identity, eta_k is the integral of 2*f*f'*f'' (equal to that of f'*(1-f'^2) when f' tends to 1) and eta_s the point where f'=0.99; a failing integration or root search raises ValueError. Integrations, quadrature and root search ask for a relative accuracy of 1e-6 or better.",
 ["inputs","configurations","fault_sequences"],"all beta, fw_pp>0, eta_inf>0 given or solved for, all similarity states, integrator/root-search success or failure",
 "Tests cover converged solutions for listed beta only; the scaled shooting equation and failure reporting are not observed.",
 [AN,FS,BL],[("ODE right-hand sides","Analytic2dSimilarityIncompressible._calculate_solution"),("integral parameters","set_solution_parameters")],["rate function, span and initial state passed to the ODE integrator","eta_d","eta_m","eta_k","eta_s","fw_pp","eta_inf"])
p("C22","Falkner-Skan beta and m conversion, range checks and atomic resets",
 "For every beta in [-0.19884, 2] the exponent is m=beta/(2-beta) (infinite at beta=2), resetting by m gives the beta that converts back to that m, and u_e is u_ref*x^m. Any beta outside the range, or non-positive eta_inf or fw_pp, is rejected with ValueError by construction and resets, and a reset that raises, because it was rejected or because no solution was found, leaves the object's parameters and solution unchanged.",
 ["inputs","histories"],"all real beta and m, all eta_inf/fw_pp values, valid reset followed by an invalid one",
 "Tests use listed beta/m pairs and do not inspect the object after a rejection.",
 [FS,AN],[("conversion and checks","FalknerSkan.m/reset_m/reset_beta"),("parameter checks","set_solution_parameters")],["beta","m","u_e","ValueError"])
p("C23","XFoil dump rows are partitioned and ordered correctly",
 "Every airfoil row of a loaded XFoil dump appears exactly once, with sign-normalised values, on the upper surface (non-negative edge velocity, order reversed so it runs from the stagnation point to the trailing edge) or the lower surface (negative edge velocity, file order), plus one stagnation point at the head of each; a row with exactly zero edge velocity is itself the stagnation point of both surfaces, as independent rows. Wake rows appear exactly once in file order, whether or not a header line (of any length) or a wake is present, and reloading or clearing the file name discards all previous data, also when the new file is rejected; the file name reads back.",
 ["inputs","histories","configurations"],"all row values, 1-3 upper rows, 1-3 lower rows, 0-2 wake rows, with/without header, with/without zero-velocity row, load after load",
 "Tests read four fixed files.",
 [XR,XD],[("partition","XFoilReader.filename setter"),("file splitting","XFoilReader._get_dump_data")],["upper(i), lower(i), wake(i), counts, filename"])
p("C24","XFoil stagnation point and arclengths are interpolated consistently",
 "When no row has zero edge velocity the stagnation point is where the edge velocity, varying linearly in arclength between the two rows at the sign change, vanishes: it has zero edge velocity and its arclength, y, thicknesses and shape factors are interpolated linearly with that fraction. Arclength on both surfaces starts at zero there and at each row is the distance in file arclength from the stagnation point; wake arclength starts at zero. The stagnation x lies between zero and the larger x of the two rows (and between the two when both lie on the same side of the leading edge: see KNOWN_FINDINGS).",
 ["inputs"],"all row values with increasing arclength, non-negative thicknesses and positive shape factors, 1-3 rows per surface",
 "Tests check stagnation data of four files, three of them symmetric, where the fraction is one half.",
 [XR],[("interpolation","XFoilReader._interpolate_aifoil_data"),("arclength shift","XFoilReader.filename setter")],["s_upper, s_lower, s_wake, upper(0), lower(0)"])
p("C25","XFoil accessors return the right column for the right row",
 "For every loaded dump each per-surface accessor returns, in row order, exactly the named column of the file (velocity, mass and kinetic-energy defects made positive on the lower surface), edge velocities scaled by the reference velocity in force, and the kinetic energy thickness as shape_k*delta_m. Single-row objects map the file columns in the documented order and reject rows with a wrong number of columns; an empty row unsets every value and a rejected one leaves nothing of the row before.",
 ["inputs"],"all column values, u_ref>0, every accessor on upper, lower and wake, column counts from 0 to 14",
 "Tests compare against fixed files in which several columns coincide or are zero.",
 [XR,XD],[("column unpacking","XFoilAirfoilData.reset, XFoilWakeData.reset"),("accessors","XFoilReader accessors")],["all *_upper/*_lower/*_wake accessors"])
p("C26","Stanford 1968 case data are converted to SI and mapped to the right fields",
 "Every value of a loaded case is the file's value for that field converted to SI units according to the case's unit system (metric cases: cm to m, cm^2/s to m^2/s; English cases: ft to m, in to m, ft/s to m/s, ft^2/s to m^2/s), in station order and for summary, station summary, profile and smoothed-velocity data alike. Derived values follow: u = u_e*(u/u_e), thicknesses and wall shear velocity from the summary when no station summary exists.",
 ["inputs","configurations"],"all field values, both unit systems, 0-2 profile rows, cases with and without station data",
 "Tests compare two or three bundled cases against numbers produced by the same conversion factors.",
 [SO,SS],[("conversions","StanfordOlympics1968StationData._reset_*, StanfordOlympics1968SmoothVel.reset, StanfordOlympics1968.case")],["all station and case accessors"])
p("C27","Inconsistent Stanford 1968 station data are rejected",
 "A station whose station-summary values disagree with its summary values beyond the stated tolerances (position, edge velocity, momentum thickness, shape factors, thicknesses, Reynolds numbers, wall shear velocity), whose profile samples disagree with the station scales, or whose rows have the wrong number of columns, is rejected with ValueError; consistent data are accepted. A case file whose identifier or viscosity line does not match is rejected, and an object that rejected its new data holds nothing of the station or case it held before.",
 ["inputs"],"all field values around the tolerances, both unit systems, column counts around the expected ones",
 "Tests read only consistent bundled files.",
 [SO,SS],[("cross-checks","_reset_station_summary, _reset_station_data, case setter")],["ValueError"])
p("C28","Public numeric setters accept exactly the documented values",
 "Viscosities, reference velocities, chord, initial thickness and shape factor, amplification factor and similarity parameters accept exactly the positive values; the Reynolds number and XFoil row thicknesses, skin friction and arclength accept exactly the non-negative ones; every other value raises ValueError. An accepted value reads back unchanged and a rejected one leaves the previous value in place.",
 ["inputs","histories"],"all real values, a valid assignment followed by an arbitrary one, every validated property of every public class",
 "Tests try single negative or zero samples per setter and rarely look at the retained value.",
 [IB,TH,HE,IC,AN,XR,XD,SS],[("setters","property setters")],["property values","ValueError"])
p("C29","Queries are pure and act element by element",
 "Querying a solution (any thickness, shape factor, wall shear, transpiration or edge-velocity quantity, for laminar, turbulent and analytic solutions) never changes the object, the arguments or arrays owned by the caller's velocity functions, so repeated and interleaved queries return the same values, also after the caller has written into an earlier result. An array query returns at each element the value of the scalar query at that element.",
 ["histories","inputs"],"all stations, arrays of up to 2 elements, every pair of queries, velocity callables that return their argument, fresh arrays, floats or ints",
 "Tests call each query once, always with arrays and with velocity functions that return fresh arrays.",
 [TH,HE,AN,IB],[("query functions","u_e, v_e, delta_*, shape_*, tau_w of all solution classes"),("state clamping on copies","HeadMethod._ode_impl, tau_w")],["all query functions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
print(len(P))
