"""Catalogue of the properties; `python3 -m tools.catalogue` writes properties.jsonl and MANIFEST.json."""

from __future__ import annotations

import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
SRC = "src/ampform_dpd/"
P = []
NA = []

NOTE = ("Decided for all values of the symbolic inputs by comparing value graphs that are derived from the source of both "
        "sides; any difference is a violation. Trusted: the analyser in dpdsa/, the reference definitions in specs/, and the "
        "models of Python, SymPy, attrs and QRules in dpdsa/models.py and dpdsa/config.py. ")


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(
        row=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=[SRC + f for f in files],
                              mechanism=[dict(name=n, where=SRC + w) for n, w in mechanism],
                              observe_at=list(observe), hook_needed=None)),
        technique=technique, note=NOTE + note))


def na(pid, title, statement, over, text, why, files, mechanism, reason):
    NA.append(dict(
        row=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=[SRC + f for f in files],
                              mechanism=[dict(name=n, where=SRC + w) for n, w in mechanism], hook_needed=None)),
        reason=reason))


VG = "static value-flow analysis: gated value graphs of the source compared with a reference definition"

prop("A01", "Scattering angles follow the cyclic formula",
     "The angle between two decay products in the rest frame of their pair is the published Dalitz-plot-decomposition formula in the "
     "masses and invariants, for each cyclic pair. An anti-cyclic, repeated, or out-of-range pair of state IDs is rejected, never "
     "answered with a formula for another pair.",
     ["inputs"], "all pairs of integer state IDs, and all values of the masses and invariants",
     "Tests look at the rendered form of a few pairs; the anti-cyclic pairs were accepted silently.",
     ["angles.py"], [("formula and checks of the ID pair", "angles.py:formulate_scattering_angle")],
     VG, "IDs 0-4 are enumerated; masses and invariants are unbounded.")
prop("A02", "Alignment angles follow the published formulas and sign rules",
     "The Wigner rotation angle that aligns one subsystem with another for a given state has the symbol, the sign and the cosine "
     "formula of the Dalitz-plot decomposition, for each combination of state, isobar and reference. It is zero when isobar and "
     "reference coincide, antisymmetric under their exchange, and combinations without a definition are rejected.",
     ["inputs"], "all combinations of rotated state, aligned and reference subsystem, and all values of masses and invariants",
     "Tests sample some combinations; each has its own sign and recursion.",
     ["angles.py"], [("alignment angles and their recursion", "angles.py:formulate_zeta_angle"),
                     ("theta-hat as special case", "angles.py:formulate_theta_hat_angle")],
     VG, "IDs 0-4 are enumerated; masses and invariants are unbounded.")
prop("S01", "Spin ranges contain each allowed projection exactly once",
     "The projections of a spin run in unit steps from minus that spin up to the spin itself, for integer and half-integer spins, and "
     "each is an exact rational number. No projection is missing, doubled or outside of the range, also for spin zero.",
     ["inputs"], "all spins and spin limits",
     "Tests look at a handful of spins.", ["spin.py"], [("spin projections", "spin.py:create_spin_range"), ("spin steps", "spin.py:create_rational_range")],
     VG, "Decided for an unbounded spin; where the loop form differs, for 2j = 0..11.")
prop("S02", "LS couplings obey the triangle rules and parity conservation",
     "The listed couplings of a two-body vertex are exactly the pairs of orbital angular momentum up to the given maximum and total "
     "spin that satisfy both triangle rules (spins couple in integer steps). The parity filter keeps exactly the couplings for which parity is conserved, in their order.",
     ["inputs"], "all spins, parities and maximal angular momenta",
     "Tests count couplings for a few spins.", ["spin.py"], [("enumeration of couplings", "spin.py:generate_ls_couplings"), ("parity filter", "spin.py:filter_parity_violating_ls")],
     VG, "Decided for unbounded spins; where the loop form differs, for small spins.")
prop("D01", "A decay chain exists only for valid IDs and topologies",
     "A decay chain can be built only from an initial state, a spectator, and one isobar that decays to two final states, and only if these "
     "four states carry four different IDs. Every other combination is rejected at construction, whatever the order of the constituents.",
     ["inputs"], "all combinations of state IDs and node orders",
     "Tests build a few invalid chains.", ["decay.py"], [("validation of the chain", "decay.py:ThreeBodyDecayChain.__attrs_post_init__")],
     VG, "IDs are symbolic, and enumerated over 0..3 where needed.")
prop("D02", "Accessors of a decay chain return its actual constituents",
     "Whatever the order in which a chain is built, its parent, isobar, resonance, spectator, decay products and couplings are the "
     "ones it was built from, and its final states come in the order of their IDs. A missing coupling is reported as missing and not replaced.",
     ["inputs"], "all chains, both orders of the production node, all orders of IDs, with and without couplings",
     "Tests use one order of the nodes.", ["decay.py"], [("accessors", "decay.py:ThreeBodyDecayChain")],
     VG, "States, particles and couplings are unbounded.")
prop("D03", "All chains of a decay share the same initial and final states",
     "A three-body decay can be built only from chains that have the initial and the final states of the decay itself. A chain with a different "
     "state is rejected wherever it occurs in the list of chains.",
     ["inputs"], "all decays with any number of chains",
     "Tests build consistent decays only.", ["decay.py"], [("validation of the decay", "decay.py:ThreeBodyDecay.__attrs_post_init__"), ("assembly of states", "_attrs.py:to_chains")],
     VG, "Decided for any number of chains, and for lists of up to three chains with one or more foreign states.")
prop("D04", "Selecting chains and subsystems never drops or adds a chain",
     "The chains of a subsystem are exactly those whose spectator carries that ID, in their original order, with a warning if there are none. A search by "
     "resonance name gives the first chain with that name and fails if there is none, and each spectator has its cyclic pair of decay products.",
     ["inputs"], "all decays, names and IDs", "Tests look at one decay.", ["decay.py", "__init__.py"],
     [("subsystem", "decay.py:ThreeBodyDecay.get_subsystem"), ("search by name", "decay.py:ThreeBodyDecay.find_chain"), ("IDs of decay products", "decay.py:get_decay_product_ids")],
     VG, "Decays are unbounded; name lists up to four chains.")
prop("D05", "Spins are exact half-integers and the value classes are immutable",
     "Spins and couplings are converted to exact rationals and rejected when they are not a multiple of one half. States, particles, "
     "couplings, isobars, chains and decays cannot be changed after construction and compare by value.",
     ["inputs", "histories"], "all spins and couplings; all later uses of the values",
     "Tests build a few particles.", ["_attrs.py", "decay.py"], [("spin conversion", "_attrs.py:assert_spin_value"), ("coupling conversion", "_attrs.py:to_ls"), ("value classes", "decay.py")],
     VG + "; immutability from class declarations", "Conversion is decided for symbolic numbers, and for representative fractions.")
prop("Q01", "Normalising state IDs only renames them",
     "Relabelling the states of a topology, transition, reaction or problem set sends each ID to its rank, so that the initial state becomes "
     "0 and the final states 1 to n. The relation between IDs, states and nodes is otherwise unchanged, for every supported type; others are rejected.",
     ["inputs"], "all topologies, transitions, reactions and problem sets with arbitrary IDs",
     "Tests use reactions with the IDs that QRules happens to give.", ["adapter/qrules.py"], [("relabelling", "adapter/qrules.py:normalize_state_ids")],
     VG, "Decided for arbitrary graphs of any size.")
prop("Q02", "Converting a reaction keeps every quantum number",
     "Each transition is converted to one with the same topology, names, LaTeX, spins, parities, masses and widths, and with its couplings. "
     "States that are equal in the source become equal states, an undefined parity remains undefined, and a missing coupling remains missing.",
     ["inputs"], "all transitions", "Tests convert reactions in which every particle has a parity.", ["adapter/qrules.py"],
     [("conversion of transitions", "adapter/qrules.py:convert_transitions"), ("conversion of particles", "adapter/qrules.py:_to_particle")],
     VG, "Decided for arbitrary collections of transitions.")
prop("Q03", "Identical final states lead to all distinct permutations",
     "For a transition with identical final-state particles, the result holds the original and each transition with two of these particles exchanged, "
     "each once and in a reproducible order. Transitions without identical particles come out unchanged, and the order of transitions is kept.",
     ["inputs"], "all transitions, each pattern of identical particles", "Tests use one reaction with two identical particles.",
     ["adapter/qrules.py"], [("permutations", "adapter/qrules.py:permute_equal_final_states")],
     VG, "Enumerates the five patterns of equality; everything else about the transitions is arbitrary.")
prop("Q04", "Minimal couplings are chosen per resonance and nothing is lost",
     "Transitions with the same resonance, decay products and couplings of the nodes that are not selected become one transition, with the "
     "smallest coupling (first by orbital angular momentum, then by spin) at each selected node; a coupling that is missing in one of them is "
     "missing in the result. The result does not depend on the type of the collection, including one-shot iterables, and no resonance disappears.",
     ["inputs"], "all collections of transitions and choices of nodes", "Tests pass lists only.", ["adapter/qrules.py"],
     [("selection", "adapter/qrules.py:filter_min_ls")], VG, "Decided for collections of any size.")
prop("Q05", "A reaction becomes a decay with one chain per transition",
     "The decay has the initial and final states of the reaction and one chain for each converted transition, with the resonance, couplings and "
     "topology of that transition. The minimal-coupling option is applied to the production or decay node exactly as requested.",
     ["inputs", "configurations"], "all reactions and options", "Tests look at a few reactions.", ["adapter/qrules.py"],
     [("assembly", "adapter/qrules.py:to_three_body_decay"), ("chain from transition", "adapter/qrules.py:_to_decay_chain")],
     VG, "Decided for reactions of any size, with the conversion and selection steps uninterpreted (Q01, Q02, Q04).")
prop("Q06", "The particle database is that of QRules, extended by this package",
     "load_particles gives, at each call, all particles that QRules ships, extended with the definitions of this package, in which a definition of "
     "this package takes precedence over the one of QRules. Each own definition is a valid particle: half-integer spin that fits its baryon number, "
     "charge as given by isospin and flavour, parities of plus or minus one, non-negative mass and width, unique name and PID.",
     ["inputs", "histories"], "all particles of QRules and all definitions of this package", "Tests look at the number of a few particles.",
     ["adapter/qrules.py", "particle-definitions.yml"],
     [("particle database", "adapter/qrules.py:load_particles"), ("definitions", "particle-definitions.yml")],
     VG, "The YAML file is parsed as data and its quantum numbers are checked against each other.")
prop("M01", "Each subsystem amplitude is the published isobar sum",
     "The amplitude of a subsystem is the coherent sum, over its chains and resonance helicities, of couplings, Clebsch-Gordan or helicity "
     "couplings, dynamics, Wigner functions, the phase of the second particle and the spin normalisation, with the angles of that subsystem. "
     "It holds for every order of the constituents of the nodes, and for all options of the builder.",
     ["inputs", "configurations"], "all decays, spins, helicities, node orders and builder options",
     "Tests compare a few rendered amplitudes.", ["__init__.py"], [("subsystem amplitude", "__init__.py:DalitzPlotDecompositionBuilder.formulate_subsystem_amplitude"), ("Clebsch-Gordan factors", "__init__.py:_formulate_clebsch_gordan_factors"), ("couplings", "__init__.py:_create_scaling_factors")],
     VG, "Spins, helicities and number of chains are unbounded; node orders and options are enumerated.")
prop("M02", "Alignment rotates each state of each subsystem exactly once",
     "The aligned amplitude sums over each subsystem in use and over all helicities of all four states, with one rotation per state by the angle of "
     "that state, subsystem and reference. The choice of the reference subsystem changes the rotations only; the default is the subsystem with the most chains, and a reference outside of the decay is warned about.",
     ["inputs", "configurations"], "all decays, combinations of subsystems and references",
     "Tests use the default reference.", ["__init__.py"], [("alignment", "__init__.py:DalitzPlotDecompositionBuilder.formulate_aligned_amplitude")],
     VG, "States are unbounded; combinations of up to three subsystems and all references are enumerated.")
prop("M03", "The complete model is consistent with its parts under all options",
     "The intensity is the sum over all helicities of the squared modulus of the aligned amplitude, and the model defines each amplitude, angle "
     "and parameter that occurs in it. The options for clean-up and for the reference change the form, not what is defined.",
     ["inputs", "configurations"], "all decays, spins and options of the builder",
     "Tests formulate a few decays with default options.", ["__init__.py"], [("model", "__init__.py:DalitzPlotDecompositionBuilder.formulate")],
     VG, "Shapes: up to three chains, several spin assignments; everything else is symbolic.")
prop("M05", "The last applicable registration determines the dynamics of a chain",
     "A lineshape that is registered for a chain is used for that chain only, and one that is registered for a resonance name for all chains with that name; the last registration "
     "wins, and other chains keep theirs. A registration for something that is not in the decay is rejected and changes nothing.",
     ["histories"], "all sequences of up to two (thorough: three) registrations by chain or name",
     "Tests register one builder per chain.", ["__init__.py", "dynamics/builder.py"], [("registry", "__init__.py:DynamicsConfigurator")],
     VG, "Decays have three chains, two of which share a name; histories are enumerated.")
prop("M06", "Masses and invariants refer to the states of the decay",
     "Each state has one mass symbol with the mass of that state as its value, whatever the order in which states are listed, and the symbols are listed by state ID. The three "
     "invariants are the named symbols, and the third follows from the other two by the sum rule of the masses.",
     ["inputs"], "all decays, orders of states and values", "Tests look at one decay.", ["__init__.py"],
     [("masses", "__init__.py:create_mass_symbol_mapping"), ("third invariant", "__init__.py:formulate_third_mandelstam")],
     VG, "Masses are unbounded.")
prop("M07", "Unfolding a model inserts each of its amplitudes",
     "The full expression is the intensity after its sums are carried out, with each amplitude replaced by its definition. It never mixes "
     "definitions and it leaves the model as it was.",
     ["inputs"], "all intensities and amplitude definitions", "Tests unfold one small model.", ["__init__.py"],
     [("full expression", "__init__.py:AmplitudeModel.full_expression")], VG, "Intensity and amplitudes are arbitrary.")
prop("L01", "Lineshapes are the published formulas",
     "Each Breit-Wigner, Bugg, Flatté and multi-channel lineshape, its energy-dependent widths and form factors have the published formula "
     "in their arguments. Optional pieces take their documented default.",
     ["inputs"], "all values of the arguments, all phase-space factors, and any number of channels",
     "Tests evaluate or print few points.", ["dynamics/__init__.py"], [("lineshapes", "dynamics/__init__.py")],
     VG, "Arguments are unbounded; two to four channels are enumerated for multi-channel shapes where the generic form cannot be compared.")
prop("L02", "Breit-Wigner builders use the quantities of their own chain",
     "The lineshape of a chain uses the invariant, product masses, angular momenta, mass and width of that chain, in each configuration of form "
     "factors and energy dependence. Each parameter is defined with the value of its own particle.",
     ["inputs", "configurations"], "all chains, spectators, node orders and configurations of the builder",
     "Tests call one configuration.", ["dynamics/builder.py"], [("builder", "dynamics/builder.py:BreitWignerBuilder")],
     VG, "Everything about the chain except the IDs is unbounded. Known finding KF1.")
prop("L03", "Products of dynamics keep both expressions and all parameters",
     "The product of two dynamics definitions has the product of the expressions and the union of the parameters; the product with a scalar keeps "
     "the parameters. Operands stay as they are and share no state with the product.",
     ["inputs", "histories"], "all expressions, parameters and later changes", "Tests multiply once and look at the result only.", ["__init__.py"],
     [("product", "__init__.py:DefinedExpression")], VG, "Expressions and parameters are unbounded.")
prop("J01", "A serialized decay description is converted without loss",
     "States, chains, vertices, couplings, resonances and lineshape functions of a serialized model end up in the decay with the indices, spins and "
     "products that the description gives. Missing or ambiguous entries are rejected.",
     ["inputs"], "all serialized models with arbitrary values", "Tests read one JSON file.", ["io/serialization/decay.py", "io/serialization/format.py"],
     [("conversion", "io/serialization/decay.py:to_decay"), ("access", "io/serialization/format.py")], VG, "Values are arbitrary; up to three chains per model.")
prop("J02", "Recoupling follows the kind of vertex",
     "The recoupling of a helicity, parity or LS vertex is the published formula in the helicities and spins of its own node, for production and "
     "isobar nodes and with final states as products. Any other kind of vertex is rejected.",
     ["inputs"], "all vertices, spins and helicities", "Tests use the vertices of one JSON file.", ["io/serialization/amplitude.py"],
     [("recoupling", "io/serialization/amplitude.py:formulate_recoupling")], VG, "Spins and helicities are unbounded.")
prop("J03", "Each serialized chain has its published amplitude",
     "The amplitude of a serialized chain is its weight times recouplings, form factors, lineshape and Wigner function, summed over the helicity of "
     "the resonance, with helicity conserved at both vertices. It is defined under the symbol of its own subsystem.",
     ["inputs"], "all chains, orders of products, kinds of vertices and helicities", "Tests look at one model.", ["io/serialization/amplitude.py"],
     [("chain amplitude", "io/serialization/amplitude.py:formulate_chain_amplitude")], VG, "Helicities and weights are unbounded.")
prop("J04", "Serialized dynamics use the values of their own definition",
     "Each lineshape or form factor of a serialized model uses the invariant and masses of its node and takes its parameter values from its own definition. "
     "Definitions of different chains, channels or vertices do not share parameters, and unknown kinds are rejected.",
     ["inputs"], "all nodes, function definitions and channels", "Tests use one JSON file in which many values agree.", ["io/serialization/dynamics.py"],
     [("dynamics", "io/serialization/dynamics.py:formulate_dynamics"), ("form factors", "io/serialization/dynamics.py:formulate_form_factor")],
     VG, "Values are arbitrary; nodes are enumerated. Known finding KF2.")
prop("J05", "A serialized model yields the complete amplitude model",
     "The model sums the amplitudes of all chains per subsystem and helicity, aligns them with the reference of the description and squares the "
     "result over all helicities. The model defines the angles, masses and parameters of all chains.",
     ["inputs", "configurations"], "all serialized models, references and options", "Tests look at one model.", ["io/serialization/amplitude.py"],
     [("model", "io/serialization/amplitude.py:formulate")], VG, "Up to three chains per model; spin-0 and spin-1/2 states; values are arbitrary.")
prop("I01", "Markdown tables show each property in its own column",
     "A table of states, chains or decays has as many cells in each row as its header, and each cell shows the property of the header in the documented "
     "format and unit. No row is lost or added.",
     ["inputs"], "all collections of states, particles and chains", "Tests compare one table.", ["io/__init__.py"], [("tables", "io/__init__.py:as_markdown_table")],
     VG, "Values are arbitrary; lists of up to three rows and of any length.")
prop("I02", "LaTeX shows the value it is made from",
     "The LaTeX of particles, states, couplings, isobars, chains and lineshapes shows the names, quantum numbers and arguments of that object, and is "
     "defined for every object of these kinds. Options have their documented effect only.",
     ["inputs", "configurations"], "all values and options", "Tests print a few objects.", ["io/__init__.py", "decay.py", "dynamics/__init__.py"],
     [("LaTeX", "io/__init__.py:aslatex")], VG, "Values are arbitrary.")
prop("I03", "Numerical functions belong to the expression they are made from",
     "A numerical function is made from exactly the given expression, parameters and backend. Caching never returns a function of other arguments: each "
     "input that influences the result is part of the key.",
     ["inputs", "histories"], "all expressions, parameters, backends and sequences of calls", "Tests lambdify one expression with one backend.", ["io/cached.py"],
     [("cached functions", "io/cached.py")], VG, "Expressions are arbitrary; up to two parameters. The disk cache of ampform is trusted to key on its arguments.")
prop("I04", "Opt-in helpers change exactly what they promise",
     "Simplified LaTeX rendering gives indexed symbols the base with the comma-separated indices as subscript and touches nothing else. Muting hides "
     "exactly the messages of the cache logger of ampform and the user warnings of the decay module, and no other warnings.",
     ["configurations"], "all indexed symbols and printers", "Tests and notebooks call these helpers and do not look at what is hidden.",
     ["io/__init__.py"], [("simplified LaTeX", "io/__init__.py:simplify_latex_rendering"), ("muted warnings", "io/__init__.py:mute_ampform_warnings")],
     VG, "Patches of external classes, loggers and warning filters are effects of the analysed calls.")

prop("H01", "Results do not depend on what was formulated before",
     "A builder, and each module-level function, gives for the same inputs the same model as a fresh builder in a fresh process, whatever has been "
     "formulated before with the same or other builders, options, decays or chains, and also if earlier results have been changed since. Dynamics "
     "that are registered after a model was formulated are used in the next one, and only by the builder they are registered with.",
     ["histories", "inputs"], "all pairs of calls on the same or different objects, for all decays, options and builders of dynamics",
     "Tests formulate once per builder; shared defaults, caches and module-level state show only in the second call, and only for other inputs.",
     ["__init__.py", "dynamics/builder.py", "io/serialization/amplitude.py", "angles.py", "spin.py"],
     [("model builder", "__init__.py:DalitzPlotDecompositionBuilder.formulate"), ("registered dynamics", "__init__.py:DynamicsConfigurator"),
      ("Breit-Wigner builder", "dynamics/builder.py:BreitWignerBuilder.__call__"), ("serialized model", "io/serialization/amplitude.py:formulate")],
     VG + ", for a call after other calls", "Histories of up to four calls are composed; in addition, each obligation of each other property checks that "
     "the analysed call leaves module-level state, class attributes, default values and cached results as they were, or otherwise that later "
     "calls do not see the difference. Earlier calls may warn.")
prop("H02", "Changing a formulated model changes nothing else",
     "The dictionaries in a formulated model belong to that model alone. Changing them affects no other model, no other part of the same model, no "
     "object that was passed in, and no definition that a registered builder of dynamics returns and keeps.",
     ["histories", "inputs"], "all decays, options, builders of dynamics, and changes of the dictionaries of a model",
     "Tests never modify a result and then look at another object.",
     ["__init__.py", "io/serialization/amplitude.py"],
     [("assembly of the model", "__init__.py:DalitzPlotDecompositionBuilder.formulate"), ("serialized model", "io/serialization/amplitude.py:formulate")],
     VG + ", with aliasing of mutable objects tracked in an abstract heap", "Each dictionary of a model is emptied and extended; keys and values are arbitrary.")

na("N01", "Angles of a closed kinematic configuration add up",
   "For each point inside the Dalitz plot the scattering and alignment angles satisfy the numerical sum rules between subsystems.",
   ["inputs"], "all points in the physical region", "Tests evaluate few points.", ["angles.py"], [("angles", "angles.py")],
   "It is an identity between sums of arccosines over the physical region, an argument about real analysis and not about the flow of values; A01 and A02 decide that each formula is the published one instead.")
na("N02", "Intensities are finite and non-negative in the physical region",
   "The numerical intensity of each model is finite and non-negative at each point inside the phase space.",
   ["inputs"], "all models and points", "Tests evaluate one model.", ["__init__.py"], [("intensity", "__init__.py")],
   "Finiteness depends on values at run time (poles, thresholds, parameter values) and on SymPy's numerics, which no static argument here bounds; that the intensity is a sum of squared moduli is part of M03.")
na("N03", "The disk cache survives crashes and concurrent writers",
   "A cached expression or function that is read back is complete and equals the one that was stored, also after a crash or with parallel processes.",
   ["crash_points", "schedules"], "all crash points and interleavings", "Tests run in one process.", ["io/cached.py"], [("cache", "io/cached.py")],
   "The storage is implemented in ampform, which is not part of this repository; the repository contributes only which function is cached under which arguments (I03).")
na("N04", "A serialized model reproduces its validation checksums",
   "The amplitude of a serialized model evaluates, at the validation points in the description, to the values listed there.",
   ["inputs"], "all models with checksums", "Docs compare one model by hand.", ["io/serialization/amplitude.py"], [("model", "io/serialization/amplitude.py")],
   "It is agreement of floating-point numbers with data outside the source; J01-J05 decide the formulas.")
na("N05", "QRules transitions are the physically allowed ones",
   "The transitions that enter the adapter are exactly those that conservation laws allow.",
   ["inputs"], "all reactions", "Out of reach of unit tests.", ["adapter/qrules.py"], [("adapter", "adapter/qrules.py")],
   "The set of transitions is computed by the external solver of QRules at run time; the repository only converts it (Q01-Q05).")


def main():
    rows = [p["row"] for p in P] + [p["row"] for p in NA]
    (HERE / "properties.jsonl").write_text("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in rows))
    man = {
        "version": 1,
        "setup_cmd": "python3 -m dpdsa.selfcheck",
        "checks": [dict(property=p["row"]["id"], quick_cmd=f"python3 -m dpdsa.check {p['row']['id']} --tier quick",
                        thorough_cmd=f"python3 -m dpdsa.check {p['row']['id']} --tier thorough",
                        evidence_file=f"evidence/{p['row']['id']}.json", technique=p["technique"], level="other",
                        level_note=p["note"]) for p in P],
        "not_applicable": [dict(property=p["row"]["id"], reason=p["reason"]) for p in NA],
        "notes": "Static analysis only: no command executes code of /repo. Engine in dpdsa/, reference definitions in specs/.",
    }
    (HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
