prop("A01", "Fixed-end actions of every load are those of the documented load",
     "For every load type and every position on the member (interior, at an end, running past the end, beyond the member), "
     "the end moments and end shears a load produces on a fully fixed member are exactly those of the documented load "
     "distribution: zero end rotations, and vertical and moment equilibrium. They are proportional to the load magnitude.",
     ["inputs"], "every load type, magnitude, position/extent and member length",
     "The quantifier is over real-valued magnitudes, positions and lengths; tests sample a few load cases on a few spans.",
     ["load"], [("load matrix parsing", "load.parse_LM"), ("fixed-end actions", "load.Load*.get_cnl / get_ref")])
prop("A02", "Load effects along a simple span are the exact integrals of the load",
     "For every load type and position, the shear, moment, rotation and deflection reported along a simply supported member "
     "are at every station the exact integrals of the documented load distribution, with zero moment and deflection at both ends; "
     "the part of a load beyond the member contributes nothing.",
     ["inputs"], "every load type, magnitude, position, member length and station",
     "Tests compare a few maxima or values at selected stations; every zone between load discontinuities and every station is quantified.",
     ["load"], [("member effects", "load.Load*.get_mbr_results"), ("end-moment pair", "load.LoadMaMb.get_mbr_results")])
prop("A03", "End releases and shear flexibility give the exactly condensed load vector",
     "For each end-release pattern and member formulation (prismatic, shear-flexible, variable rigidity), the end forces a load "
     "produces on a member equal the fixed-end forces with the released moments condensed out through that member's own stiffness; "
     "a released end carries exactly zero moment.",
     ["inputs", "configurations"], "all release patterns x member formulations (uniform and stepped rigidity, imposed curvature included) x load types, symbolic lengths, rigidities, magnitudes, positions",
     "Only some combinations of release pattern, formulation and load type are sampled, each at one numeric instance.",
     ["beam", "load"], [("release condensation", "beam.Beam.get_ref, load.Load.get_ref"), ("shear-flexible fixed-end forces", "beam.Beam._ref_timoshenko"), ("variable-rigidity fixed-end forces", "beam.Beam flexibility route")])
prop("A04", "Member stiffness is symmetric, self-equilibrated and consistent across forms",
     "For every member formulation and end-release pattern the member stiffness is symmetric, produces no force under rigid-body "
     "translation or rotation, and equals the static condensation of the fully fixed stiffness; formulations agree where their "
     "assumptions coincide (uniform rigidity, vanishing shear flexibility).",
     ["inputs", "configurations"], "all release patterns x member formulations, symbolic length and rigidities",
     "Tests compare a few solved beams; agreement for every length and rigidity is an algebraic identity.",
     ["beam", "section"], [("member stiffness", "beam.Beam.get_span_k, k_FF/k_FP/k_PF/k_PP"), ("variable rigidity flexibility", "section.SectionEI, beam flexibility integrals")])
prop("A05", "Member effects follow exactly from the nodal solution",
     "Along every member the reported shear, moment, rotation and deflection are the exact solution for that member's end "
     "displacements, end forces and own loads, whatever the releases, rigidity variation or shear flexibility: deflections and unreleased "
     "rotations match the nodal values at both ends and a released end has zero moment. Loads on other members do not enter.",
     ["inputs", "configurations"], "all loads x releases x formulations, arbitrary nodal displacements, lengths, rigidities and stations",
     "Tests compare reactions and a few extreme values of particular beams; the identity holds for every displacement field and station.",
     ["results", "load", "beam"], [("member reconstruction", "results.BeamResults._member_analysis/_member_values"), ("end-moment effects", "load.LoadMaMb.get_mbr_results")])
prop("A06", "The solved system is nodal equilibrium under the stated supports",
     "For every support layout (fixed, free, spring, settled or with an imposed displacement at any freedom) the analysis solves exactly the nodal "
     "equilibrium of the connected members with their loads and springs, with every constrained displacement equal to its prescribed value. "
     "Reported reactions are the unbalanced nodal forces at the fixed freedoms in order, and spring forces are minus stiffness times displacement.",
     ["configurations", "inputs"], "all support kinds per freedom, enumerated layouts of 1-3 members with symbolic stiffnesses, loads and imposed displacements",
     "The combinations of support kinds are many; tests cover a handful of numeric layouts.",
     ["analysis"], [("assembly", "analysis.BeamAnalysis._assemble/_forces"), ("boundary conditions", "analysis.BeamAnalysis._apply_bc"), ("reactions", "analysis.BeamAnalysis._reactions")])
prop("B01", "Adding a load adds exactly that load and nothing else",
     "Each load-adding method leaves the previously held loads in force and adds exactly one load with the documented "
     "magnitude, position and extent to the member it names (members are numbered from 1). The load list the caller passed in is not "
     "changed, setting a new load matrix discards the earlier loads, and an unknown load type or an incomplete trapezoid is rejected.",
     ["inputs", "histories"], "every load-adding method, documented form, member and magnitude, after any previously held load",
     "Tests use one member and one number per method; the statement quantifies over members, forms, magnitudes and prior contents.",
     ["analysis", "beam", "load"], [("load editing", "analysis.BeamAnalysis.add_*/set_loads, beam.Beam.add_load"), ("load matrix parsing", "load.parse_LM")])
prop("B02", "Factoring and superposing load matrices acts on load magnitude only",
     "Factoring a load matrix multiplies the effect of every load by the factor, leaving members, positions and extents unchanged; "
     "superposing two load matrices gives the sum of their effects. Neither operation changes its inputs.",
     ["inputs"], "every load type and documented form, symbolic factor, magnitudes and positions",
     "Tests factor a few rows; per-type column meaning must hold for every form (bare, with cover, trapezoid with optional columns).",
     ["load"], [("factoring", "load.factor_LM"), ("superposition", "load.add_LM")])
prop("B03", "Named supports, member types and broadcast inputs lower to what they name",
     "Every documented support name (any letter case) or raw pair gives its documented freedoms in node order; every member-type name, "
     "code and enumeration member denotes the same end releases; member-wise rigidities and releases reach the member of the same "
     "index whether given as a scalar or a list; unknown names and wrong lengths are rejected. A beam string gives the spans, the support "
     "of every terminal and one member-end release per hinge, and is rejected when it has fewer than two terminals, a hinge at an end, an "
     "internal free or fixed terminal or a missing span; a position along the beam maps to the span that holds it, off the beam to (-1, 0).",
     ["configurations"], "every documented name and its spellings, every member-type spelling, scalar and list forms, enumerated member counts",
     "Tests spot-check some names; the vocabulary is a closed table that has to agree with the raw forms entry by entry.",
     ["utils", "beam", "analysis", "types"], [("support vocabulary", "utils.supports_to_R"), ("member types", "types.py, beam.Beam"), ("broadcasting", "beam.Beam.__init__"), ("beam strings", "utils.parse_beam_string"), ("positions", "beam.Beam.get_local_span_coords")])
prop("D01", "Envelopes keep the true extremes and the effects coincident with them",
     "An envelope of any number of result sets holds at every station the maximum and minimum of each load effect and reaction over "
     "exactly those sets; the shear reported as coincident with an extreme moment (and the moment with an extreme shear) is taken from the set that "
     "governs that extreme at that station; reaction histories keep one entry per set in order.",
     ["inputs", "histories"], "every relative order of the values of enumerated numbers of result sets, at a generic station",
     "Tests envelope one or two numeric runs; which set governs at each station is an ordering that must be respected in every case.",
     ["results"], [("construction", "results.Envelopes.__init__ / _calc_envelopes"), ("coincident effects", "results.Envelopes"), ("reaction extremes", "results.Envelopes._set_reactions")])
prop("D02", "Merging envelopes loses nothing and leaves the operands unchanged",
     "Augmenting or combining envelopes keeps the larger maximum and smaller minimum of both everywhere with the coincident effects of the governing operand, "
     "whatever the order; summing envelopes superimposes extremes, coincident effects and reactions; a zero envelope is neutral. Reaction histories "
     "merge only when they match and otherwise are dropped for good; incompatible envelopes are rejected; only in-place merging changes its receiver.",
     ["inputs", "histories"], "every ordering of the operands' values at a generic station, matching and mismatching shapes, sequences of merges",
     "Tests merge one pair of numeric envelopes; order independence, neutrality and history dropping quantify over every pair and sequence.",
     ["results"], [("augment/combine", "results.Envelopes.augment/combine/__or__"), ("sum", "results.Envelopes.sum/__add__/zero_like")])
prop("D03", "Queries, exports and member slices report the value held at the place asked",
     "A point query at any position gives the linear interpolation between the neighbouring stations of the member that contains it, without closure stations or "
     "values of another member; positions off the beam are rejected. Beam-wide arrays, exported tables and per-member "
     "reductions are the member results in order at accumulated coordinates, unpermuted.",
     ["inputs"], "every query position relative to the stations and member boundaries, every exported quantity, enumerated station counts",
     "Tests query round positions; behaviour at every interval, boundary and end, and every exported column, is quantified.",
     ["results"], [("point queries", "results.BeamResults.*_at, results.Envelopes query methods, results._interp_stations"), ("exports", "results.*.to_csv/to_dataframe"), ("concatenation", "results.BeamResults, results.Envelopes.per_span")])
prop("A07", "A foundation member is the exact condensation of its internal mesh",
     "A member on an elastic foundation presents to the analysis the static condensation of its internal mesh of bending plus consistent foundation "
     "stiffness, and of the loads falling on each part of it wherever they start and end; reported effects follow from the condensed mesh's own displacements. "
     "Each member uses its own length, rigidity and modulus, also after members are added; unsupported loads and member kinds are rejected.",
     ["inputs", "configurations"], "every load position relative to the internal nodes, symbolic length, rigidity, modulus and end displacements, enumerated mesh sizes",
     "Tests compare with a classical solution at tolerance for a few numbers; load position relative to the internal nodes and the condensation hold for every value.",
     ["foundation", "beam"], [("condensation", "foundation.FoundationElement.__init__/ref/recover"), ("use in the beam", "beam.Beam._foundation/get_span_k/get_ref")])
prop("A08", "Free vibration solves the assembled stiffness and mass of the beam",
     "The eigenproblem solved for natural frequencies is the stiffness (bending, elastic foundation, spring supports) against the consistent mass of the refined "
     "beam on its unsupported freedoms, each span with its own length, rigidity and mass. Frequencies and periods follow from its eigenvalues, and mode shapes are its "
     "eigenvectors at their own freedoms, zero at supports, normalised by the largest lobe; unsupported spans are rejected.",
     ["configurations", "inputs"], "support layouts of 1-3 spans and refinements, symbolic lengths, rigidities, masses, springs and foundation moduli",
     "Tests compare a few frequencies with closed forms for uniform beams; assembly for mixed supports, springs, spans and foundations is quantified.",
     ["modal"], [("assembly", "modal.solve_modal"), ("results", "modal.ModalResults")])
prop("E01", "Load cases stay separate and combine linearly",
     "Each load-case builder adds exactly the documented load on the addressed member of that case only. Cases do not share rows with the caller, "
     "each other, returned matrices or models built from them. A model for a case has every structural attribute of the template and only that "
     "case's loads, and leaves the template alone. A combination's loads are the factored sum of its cases, matched by position, name or index; duplicates, unknown names and wrong counts are rejected.",
     ["inputs", "histories", "configurations"], "every builder and magnitude, every way of adding a case, factor vectors and mappings with symbolic factors",
     "Tests build a few cases with numbers; isolation between cases and exact factored sums are statements about every sequence of additions and every factor.",
     ["load_cases"], [("builders", "load_cases.LoadCase.add_*, LoadCases.add_*"), ("combination", "load_cases.LoadCases.combined_loads/factors, LoadCombination"), ("model", "load_cases.build_pycba_model")])
prop("E02", "Combined and enveloped responses equal the sums and extremes of their cases",
     "The response matrix holds each case's own response, analysed alone, in case order. Combining by factors gives the factored sum at every station, equal to the "
     "response of the combined loads. The case envelope, the additive envelope (sum of the n smallest or largest), the sign-selective envelope with its contributors, and a target combination "
     "(cases of the wanted sign at the target) select exactly what they state; bad factors, targets and names are rejected. (Beams without prescribed displacements.)",
     ["inputs", "configurations"], "arbitrary linear responses, symbolic factors, every ordering and sign pattern of the case values, targets at and between stations",
     "Tests combine a few numeric cases; linearity and selection are statements about every factor vector and every ordering of case responses.",
     ["load_cases"], [("response matrix", "load_cases.collect_response_matrix"), ("combination", "load_cases.LoadCases.combine/analyze_combination"),
                      ("selection", "load_cases.additive_envelope, sign_selective_envelope, _make_target_combination")])
prop("E03", "Segmented and patterned loads partition the load exactly",
     "A uniform load on a beam segment becomes rows covering exactly the part of the segment on each member, wherever it starts and ends. Segmented spans abut and cover "
     "each span once, each segment with its own identifier. Load patterning produces the documented arrangements (adjacent pairs, odd, even and all spans at maximum factors, others at minimum) "
     "containing every dead and live load once, naming the loaded spans and leaving the model consistent with its results, and its envelope covers all of them; inputs and structure are left alone; invalid segments and missing load sets are rejected.",
     ["inputs", "configurations"], "every placement of segment ends relative to span boundaries on three spans, 1-3 spans with 1-3 or the default segments, patterns on 1-4 spans with symbolic factors",
     "Tests pattern a few beams; coverage without gap or overlap holds or fails by where the ends fall and by span parity.",
     ["load_cases", "pattern"], [("segments", "load_cases._make_segment_udl, make_patterned_udl"), ("patterns", "pattern.LoadPattern.to_load_cases/analyze")])
prop("F01", "Moving vehicles load the deck exactly where their axles stand",
     "At each position of a crossing the analysed loads are the beam's own loads plus one point load per axle at the front position minus its offset, only while on the deck, plus for a load model "
     "the lane load on the whole deck or outside the clear zone around the vehicle. Positions run from start to end by the step (defaults: the whole crossing) with one result each, in order. "
     "Afterwards, even on failure, the beam has its own loads and no shear points armed; shear points resolve to every requested on-deck section. Bad clearances and missing objects are rejected.",
     ["inputs", "configurations", "histories"], "every order of axles, clear-zone ends and supports (ties included), 1-3 spans, 1-3 axles, symbolic spacings, steps and loads, failure at any position",
     "Tests run a few vehicles on a few grids; whether an axle or lane edge is dropped, doubled or displaced depends on which of them coincide with or straddle a support.",
     ["bridge", "beam"], [("placement", "bridge.BridgeAnalysis._axle_LM/_interval_udl_LM"), ("crossing", "bridge.BridgeAnalysis.run_vehicle/run_load_model/static_vehicle"), ("shear points", "bridge.resolve_shear_points")])
prop("F02", "Critical values and ratios of a crossing name the governing case",
     "The critical values of a crossing are the extreme moment and shear over all positions and stations (zero as baseline), with the station, every vehicle position at which they occur and the coincident "
     "other effect; reaction extremes carry their vehicle position; shear-point entries hold the extremes either side of the section, its nearest support and side. Envelope ratios are |trial/reference|, "
     "zero where the reference is within 1e-3 of zero. Envelopes of another crossing, or incompatible ones, are rejected.",
     ["inputs"], "every ordering and sign split of two positions by two stations, ties over three positions, references either side of the tolerance",
     "Tests compare a few known trucks; picking the governing position and its coincident value is a statement about every ordering of effects.",
     ["bridge"], [("critical values", "bridge.BridgeAnalysis.critical_values"), ("ratios", "bridge.BridgeAnalysis.envelopes_ratios")])
prop("F03", "Influence lines move one unit load and read one fixed effect",
     "create_ils analyses one point load of the given value at every multiple of the step from the left end to the right end (default step: a hundredth of the length), nothing else on the beam, replacing earlier results. "
     "get_il returns those positions and, for each, the moment or shear at the evaluation station nearest the point of interest within its span, or the force (moment) reaction of the fully restrained support nearest to it.",
     ["inputs", "configurations"], "1-4 spans, symbolic step and load value, points of interest in every part of every span, every support layout of four nodes including springs and moment restraints",
     "Tests check a few known influence lines; the reaction picked depends on every other restraint of the beam, the station on the region of the point.",
     ["inf_lines"], [("marching", "inf_lines.InfluenceLines.create_ils"), ("extraction", "inf_lines.InfluenceLines.get_il")])
prop("F04", "Vehicles, reversals, trains and library trucks have the stated axles",
     "A vehicle's axle coordinates are the running sums of its spacings, its length and weight their totals; inconsistent counts are rejected. Reversing mirrors spacings, weights and coordinates; twice restores; a reversed copy, a train, "
     "the caller's arrays and the library share nothing with a vehicle. A train is its vehicles' axles in order with the given gaps (one gap repeats; zero allowed). Library vehicles have the documented spacings and loads for every parameter, whatever was requested before; values outside a range that a getter documents as an error are rejected.",
     ["inputs", "histories"], "vehicles of 1-6 axles and trains of 1-4 vehicles with symbolic spacings and weights, every library getter with symbolic or boundary parameters",
     "Tests check a few trucks and one train; mirrored coordinates, gaps and independence hold for every axle layout and order of operations.",
     ["vehicle"], [("vehicle", "vehicle.Vehicle"), ("train", "vehicle.make_train"), ("library", "vehicle.VehicleLibrary")])
prop("H01", "A variable section evaluates to exactly what was entered",
     "A section built from contiguous constant, linear, piecewise-linear and polynomial segments (chained, tuples or mappings) has at every position of the span the entered value or the straight line or polynomial "
     "through the entered values; at a step, the value of the segment ending there; its length and breakpoints are the entered stations, each once. Unknown kinds, gaps, overlaps, non-increasing stations, "
     "mismatched counts and non-positive rigidities are rejected, leaving the section as it was; a section whose coverage differs from its span is refused by the beam. The section keeps its own data.",
     ["inputs"], "every arrangement of one to three segments of every kind with symbolic stations and values, evaluated at a general point of every piece and at every join",
     "Tests evaluate a few haunches at a few points; stations, joins and steps are where a piece is picked wrongly and only the general point shows the rest.",
     ["section", "beam"], [("building", "section.SectionEI.add_segment"), ("evaluation", "section.SectionEI.__call__"), ("coverage", "section.SectionEI.validate_length")])
prop("H02", "Prestress equivalent loads balance F times the tendon eccentricity",
     "The loads returned for a tendon cause, on a statically determinate span or cantilever, the moment -F e(x) at every section, where e(x) is the profile as documented (parabola through its points, compound parabola smooth at its "
     "joins, straight harps, set-back ends, cantilever forms). On continuous beams the same holds per span relative to its chord; a tendon's end moment F e acts where the tendon begins or ends, also next to an unstressed span, which itself carries nothing. "
     "Force is one value or one per span; impossible geometry and wrong counts are rejected; inputs are not changed.",
     ["inputs", "configurations"], "every profile kind with symbolic geometry, eccentricities above, at and below the centroid, set-back at either end, cantilevers on either side, three-span beams with any spans unstressed, two members joined at an unsupported node",
     "Tests check one geometry per profile against its own segment formulas; the balance is an identity over all geometries, sign combinations and span arrangements.",
     ["prestress"], [("profiles", "prestress.Parabola/CompoundParabola/Harp/DoubleHarp.segments"), ("loads", "prestress.equivalent_loads")])
prop("G01", "Elasto-plastic increments follow the documented softening law",
     "The incremental analysis of an elasto-plastic beam solves, in every increment, the system with the beam's elastic stiffness degraded at each element end by the documented law: full stiffness below the yield moment and on unloading, linear loss "
     "between yield and plastic moment, the hardening ratio from the plastic moment on, judged by the largest moment ratio reached so far. Loads grow in proportion; moments, displacements and the load factor are the sums of the increments; "
     "each node's yield and hinge events are recorded once, at their place and load factor; the support between spans has the weaker capacity. Loads, springs and variable sections the model lacks are refused.",
     ["inputs", "histories"], "point loads anywhere on an element, uniform loads, several spans and support types, moment histories rising, unloading, reversing and passing yield and plastic moment exactly, with and without hardening",
     "Tests look at collapse load factors of a few beams; a wrong step of the law, a stale parameter on unloading or a wrong neighbour's capacity changes only some histories.",
     ["nonlinear"], [("softening law", "nonlinear.NonlinearBeamAnalysis._update_R"), ("assembly", "nonlinear.NonlinearBeamAnalysis._assemble_from_elem_R"), ("increments", "nonlinear.NonlinearBeamAnalysis.analyze")])
prop("G02", "Collapse is declared exactly when the mechanism test or solver says so",
     "When a new plastic hinge forms, the elasto-plastic analysis tests the stiffness with one release at every hinge (neighbouring hinged nodes count as one); rank deficiency ends the analysis as collapsed at the current load factor, a singular system ends it as collapsed "
     "at the previous one, and otherwise it continues to its last load factor and is not collapsed. The reported moments, stiffness parameters and hinges are those of that moment.",
     ["inputs", "histories"], "hinge patterns in span, at fixed ends and over interior supports forming in several orders; every answer of the rank test and of the solver",
     "The verdict at each possible hinge pattern and order is quantified; tests reach one pattern per beam.",
     ["nonlinear"], [("mechanism test", "nonlinear.NonlinearBeamAnalysis._is_mechanism"), ("termination", "nonlinear.NonlinearBeamAnalysis.analyze")])
prop("G03", "A moving load on an elasto-plastic beam is unloaded and reloaded in pairs",
     "As a load or vehicle crosses an elasto-plastic beam, each position is reached by equal sub-increments that elastically remove the load of the previous position and apply that of the new position on the stiffness degraded by the moments reached, "
     "with axles on the beam only and the front axle going from the start until the last axle has left. Hinge events carry the front-axle position; a mechanism or a singular system ends the crossing there as collapsed; snapshots hold the position and moments of their step.",
     ["inputs", "histories"], "one or several axles, several spans and support types, one or more sub-increments, with and without hardening, uninterrupted and collapsing crossings",
     "Tests compare a few crossings' final state; the pairing of removed and applied load and the degraded stiffness matter at every position and sub-increment.",
     ["nonlinear", "vehicle"], [("crossing", "nonlinear.NonlinearBeamAnalysis.analyze_moving"), ("axle loads", "nonlinear.NonlinearBeamAnalysis._vehicle_force_vector")])
prop("C01", "Stability is judged on the structure actually solved, whatever the units",
     "A structure is refused as a mechanism, by the stability query and by the analysis, exactly when the stiffness of its free freedoms (including releases, springs and prescribed displacements) is singular; the judgement does not depend on the length unit. "
     "The verdict is repeatable, is not carried over a change of the supports or settlements, and an analysis asked to waive the check waives it for that analysis only.",
     ["configurations", "histories"], "support layouts of one to three members with every kind of support, both entry points, both answers, edits of supports and settlements between",
     "Unit tests try a few stable and unstable beams in one unit system; which freedoms are judged, scaling with the units and stale verdicts need every layout and history.",
     ["analysis"], [("judged matrix", "analysis.BeamAnalysis._check_stability"), ("cached verdict", "analysis.BeamAnalysis.analyze, is_stable")])
prop("C02", "Results depend on the current model only, not on how it was reached",
     "After any sequence of edits of loads, supports, settlements and stations, with or without analyses in between, an analysis solves the same system and reports the same results as a model built directly in the final state. "
     "Editing the model does not alter the results already obtained, results kept from an earlier analysis stay as they were, and an analysis that fails leaves the previous results in place.",
     ["histories"], "every public edit alone and in pairs and triples, analysed after each or only at the end, symbolic lengths, rigidities and loads",
     "Tests mostly build one model and analyse it once; stale caches and shared lists show only in particular sequences of edits and analyses.",
     ["analysis", "beam", "results"], [("edits", "analysis.BeamAnalysis.add_*/set_loads, beam.Beam setters"), ("analysis", "analysis.BeamAnalysis.analyze")])

prop("C03", "Asking, plotting and exporting change nothing and repeat themselves",
     "Queries, plots and exports (values at a section, deflection curves, data tables, stability verdicts, every plot method in both backends and all unit systems, load matrices and factors of cases, mode shapes, section values, "
     "tendon loads) leave the model, the results and their arguments exactly as they were; asked again they give the same answer and the same drawing, and an answer given earlier stays as given.",
     ["histories"], "every public query and plot of analyses, beams, results, envelopes, load cases, plastic and modal results, sections, vehicles and tendons, asked twice on symbolic models",
     "Tests assert that a plot returns a figure or that a query returns the right value once; none compares the whole object graph before and after.",
     ["analysis", "results", "load_cases", "nonlinear", "modal", "section", "prestress"], [("figures", "analysis.BeamAnalysis.plot_*, results.Envelopes.plot*, nonlinear.NonlinearResult.plot_*"), ("queries", "analysis.BeamAnalysis.at / to_dataframe, results.Envelopes.at / per_span / zero_like")])
prop("C04", "Data handed in stays the caller's",
     "Lists, arrays, tuples, mappings and objects given to a constructor or a method (lengths, rigidities, restraints, load matrices and rows, settlements, masses, section data, axle arrays, vehicles, sections of a shear query, envelopes, load cases, factors, "
     "templates) are left exactly as they were by the call and by everything done later with what was built from them: adding loads, analysing, crossings, merging, reversing. So one model, envelope, vehicle or case never reaches another made from the same data.",
     ["histories"], "every public constructor and method taking a list, array or object, followed by the later work that uses it, on symbolic data",
     "Tests pass literals and never look at them again; sharing shows only when the same data is used twice.",
     ["analysis", "beam", "load", "load_cases", "pattern", "bridge", "vehicle", "results", "nonlinear", "modal", "section", "utils"],
     [("handing in", "analysis.BeamAnalysis.__init__ / set_loads, load_cases.LoadCases.add_case, vehicle.make_train, results.Envelopes.combine"), ("later work", "beam.Beam.add_load, load_cases.LoadCase.add_load, results.Envelopes.augment / sum")])
prop("I01", "Diagrams show the values they are labelled with",
     "In every figure the curve labelled with an effect is that effect's values at their own positions: moments, shears and deflections of an analysis (deflections scaled by the factor belonging to the printed unit), both extremes of an envelope with their own coincident effects, "
     "influence lines, bridge critical positions and traces, mode shapes, plastic moments, hinge rotations and collapse shapes, section rigidity, tendon eccentricity, axle loads, load-pattern regions and reactions. Moment panels are drawn sagging downwards as documented, and both backends draw the same values. Each frame of an animated crossing shows its own position and the extremes reached by then; figures with no units or backend of their own use those set for the session.",
     ["inputs", "configurations"], "every plot method, both backends, every unit system and option, symbolic results",
     "Tests only check that plotting runs and returns axes; the values drawn are never compared with the results.",
     ["analysis", "results", "bridge", "inf_lines", "nonlinear", "modal", "section", "prestress", "vehicle", "load_cases"],
     [("figures", "analysis.BeamAnalysis.plot_*, results.Envelopes.plot*, bridge.BridgeAnalysis.plot_*, inf_lines.InfluenceLines.plot_*"), ("units", "units")])

prop("I02", "The schematic shows the model it is made from",
     "The beam schematic, drawn or as LaTeX text, shows the model it is made from: nodes and members at their coordinates, a support of the right kind (pin, roller, fixed, spring, guided, rotational spring) at every supported node and none elsewhere, "
     "every moment release, elastic foundations under the members that have one, and every load of the chosen source (the beam's own, none, a load matrix, a case or a factored combination) at its own position, over the part of the span it acts on, in its own direction and with its own value; "
     "values, dimensions and axes are labelled in the chosen unit system.",
     ["inputs", "configurations"], "every support kind at each of three nodes, every release pattern of three members, every load type and region with symbolic values and lengths, both signs, all unit systems",
     "Tests look at a few fixed beams and mostly at whether something is drawn; positions, directions and values of every load and support combination are not compared with the model.",
     ["render", "beam", "units"], [("inference", "render.BeamPlotter"), ("drawing", "render.BeamPlotter.render_mpl / beam.Beam.plot"), ("text", "render.BeamPlotter.render_tikz / beam.Beam.to_tikz")])

# ---- stated, but outside this family of technique
prop("N01", "Reported reactions balance the loads to rounding accuracy",
     "For well-posed beams the numerical solution satisfies nodal equilibrium, and its reactions balance the applied loads, to within rounding proportional to the loads, whatever units and proportions the user chooses.",
     ["inputs"], "every well-posed beam in any units",
     "Tests check a few well-scaled beams; conditioning depends on every length and rigidity ratio.",
     ["analysis"], [("solution", "analysis.BeamAnalysis.analyze")],
     na="A bound on floating-point rounding through a dense linear solve depends on the condition number of user-chosen data; no static argument in reach bounds it.")
prop("N02", "Refining a mesh converges to the exact foundation, vibration or tapered member",
     "As sub-elements or integration points are refined, foundation members, natural frequencies and members with a general rigidity function approach the exact solution, and the automatic refinement is accurate enough for design.",
     ["inputs"], "every member proportion and rigidity function",
     "Tests compare a few proportions with closed-form solutions at a tolerance.",
     ["foundation", "modal", "beam"], [("automatic refinement", "foundation.auto_subdivisions, modal.solve_modal"), ("quadrature", "beam flexibility integrals")],
     na="Discretisation error is a run-time numerical quantity of arbitrary user data and functions; static analysis decides the assembled systems (A04, A07, A08), not their distance from the limit.")
prop("N03", "Incremental collapse loads agree with plastic theory",
     "As the mesh and increments are refined, the collapse load factor and mechanism of the elasto-plastic analysis approach those of plastic theory.",
     ["inputs"], "every beam, loading and capacity",
     "Tests compare a few textbook mechanisms.",
     ["nonlinear"], [("collapse", "nonlinear.NonlinearBeamAnalysis.analyze")],
     na="A limit of run-time numerical increments; G01-G03 decide the increment law, the system solved and the verdicts instead.")
prop("N04", "Stepped crossings come close to the true extremes between steps",
     "The envelope and critical values of a crossing at the default step and station count lie within a small margin of the extremes over all vehicle positions and stations.",
     ["inputs"], "every bridge, vehicle and step",
     "Tests compare a few bridges with published extremes.",
     ["bridge"], [("default step", "bridge.BridgeAnalysis.run_vehicle")],
     na="The gap between sampled and continuous extremes is a run-time quantity of user-chosen steps; F01/F02 decide the exact values at the steps.")
