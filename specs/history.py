"""Drivers: what is formulated does not depend on what was formulated before, or on what was done with the results."""
from ampform_dpd import DalitzPlotDecompositionBuilder, DefinedExpression
from ampform_dpd.angles import formulate_scattering_angle, formulate_theta_hat_angle, formulate_zeta_angle
from ampform_dpd.dynamics.builder import BreitWignerBuilder, formulate_breit_wigner_with_form_factor
from ampform_dpd.io.serialization.amplitude import formulate
from ampform_dpd.io.serialization.decay import to_decay
from ampform_dpd.io.serialization.dynamics import formulate_dynamics, formulate_form_factor
from ampform_dpd.spin import create_spin_range, generate_ls_couplings


def build(decay, config):
    prod, dec, everything = config
    return DalitzPlotDecompositionBuilder(decay, min_ls=(prod, dec), all_subsystems=everything)


def run(builder, options):
    reference, cleanup, coeff = options
    return builder.formulate(reference, cleanup_summations=cleanup, use_coefficients=coeff)


def spoil(model, key, value):
    """Change everything in a model that can be changed."""
    for contents in (model.amplitudes, model.variables, model.parameter_defaults, model.masses, model.invariants):
        contents.clear()
        contents[key] = value


def content(model):
    return (model.decay, model.intensity, dict(model.amplitudes), dict(model.variables), dict(model.parameter_defaults),
            dict(model.masses), dict(model.invariants))


# ---- one builder, several models
def again(decay, config, first, second):
    b = build(decay, config)
    run(b, first)
    return run(b, second)


def ref_again(decay, config, first, second):
    return run(build(decay, config), second)


def after_parts(decay, config, k, reference, lambdas, options):
    b = build(decay, config)
    b.formulate_subsystem_amplitude(*lambdas, k, use_coefficients=True)
    b.formulate_aligned_amplitude(*lambdas, reference)
    return run(b, options)


def ref_after_parts(decay, config, k, reference, lambdas, options):
    return run(build(decay, config), options)


def after_spoiling(decay, config, first, second, key, value):
    b = build(decay, config)
    spoil(run(b, first), key, value)
    return run(b, second)


def ref_after_spoiling(decay, config, first, second, key, value):
    return run(build(decay, config), second)


def kept(decay, config, first, second, key, value):
    """A model does not change when another one is formulated or changed."""
    b = build(decay, config)
    model = run(b, first)
    spoil(run(b, second), key, value)
    return content(model)


def ref_kept(decay, config, first, second, key, value):
    return content(run(build(decay, config), first))


def parts_apart(decay, config, options, key, value):
    """The parts of a model are separate objects."""
    model = run(build(decay, config), options)
    model.masses.clear()
    model.invariants[key] = value
    model.parameter_defaults[key] = value
    return model


def ref_parts_apart(decay, config, options, key, value):
    model = run(build(decay, config), options)
    defaults = {**model.parameter_defaults, key: value}
    invariants = {**model.invariants, key: value}
    return type(model)(decay, model.intensity, dict(model.amplitudes), dict(model.variables), defaults, {}, invariants)


def builder_after(decay, config, options):
    b = build(decay, config)
    run(b, options)
    return (b.decay, b.use_production_helicity_couplings, b.use_decay_helicity_couplings, b.all_subsystems,
            b.dynamics_choices.decay, [b.dynamics_choices.get_builder(c) is b.dynamics_choices.get_builder(c) for c in decay.chains])


def ref_builder_after(decay, config, options):
    return (decay, *config, decay, [True for c in decay.chains])


# ---- several builders
def other_builder(decay, config, options, decay2, config2, options2):
    b = build(decay, config)
    c = build(decay2, config2)
    run(c, options2)
    return run(b, options)


def ref_other_builder(decay, config, options, decay2, config2, options2):
    return run(build(decay, config), options)


# ---- dynamics
def with_dynamics(decay, config, choices):
    b = build(decay, config)
    for identifier, dynamics in choices:
        b.dynamics_choices.register_builder(identifier, dynamics)
    return b


def registered_late(decay, config, early, late, options):
    b = with_dynamics(decay, config, early)
    run(b, options)
    for identifier, dynamics in late:
        b.dynamics_choices.register_builder(identifier, dynamics)
    return run(b, options)


def ref_registered_late(decay, config, early, late, options):
    return run(with_dynamics(decay, config, [*early, *late]), options)


def registered_elsewhere(decay, config, choices, options):
    with_dynamics(decay, config, choices)
    return run(build(decay, config), options)


def ref_registered_elsewhere(decay, config, choices, options):
    return run(build(decay, config), options)


def shared_dynamics(decay, config, identifier, definition, options, key, value):
    """What a builder of dynamics returns is not changed by the model it is used for."""
    shared = DefinedExpression(*definition)
    b = with_dynamics(decay, config, [(identifier, lambda chain: shared)])
    run(b, options)
    spoil(run(b, options), key, value)
    return (shared.expression, shared.parameters)


def ref_shared_dynamics(decay, config, identifier, definition, options, key, value):
    return (definition[0], definition[1])


def default_dynamics_again(decay, config, chain, chain2, options, key, value):
    """Chains without registered dynamics do not share what they have by default."""
    for identifier in (chain2, chain):
        x = build(decay, config).dynamics_choices.get_builder(identifier)(identifier)
        x.parameters[key] = value
        x.expression = value
    b = build(decay, config)
    return b.dynamics_choices.get_builder(chain)(chain), content(run(b, options))


def ref_default_dynamics_again(decay, config, chain, chain2, options, key, value):
    return DefinedExpression(), content(run(build(decay, config), options))


# ---- Breit-Wigners
def other_chain_first(config, config2, chain, chain2, phsp, key, value):
    b = BreitWignerBuilder(*config, phsp)
    c = BreitWignerBuilder(*config2, phsp)
    for x in (b(chain2), c(chain), b(chain)):
        x.parameters.clear()
        x.parameters[key] = value
    return b(chain)


def ref_other_chain_first(config, config2, chain, chain2, phsp, key, value):
    return BreitWignerBuilder(*config, phsp)(chain)


def other_phase_space_first(config, chain, phsp, phsp2):
    BreitWignerBuilder(*config, phsp2)(chain)
    b = BreitWignerBuilder(*config, phsp)
    b(chain)
    b.phsp_factor = phsp2
    b(chain)
    b.phsp_factor = phsp
    return b(chain)


def ref_other_phase_space_first(config, chain, phsp, phsp2):
    return BreitWignerBuilder(*config, phsp)(chain)


def predefined_again(chain, chain2, key, value):
    formulate_breit_wigner_with_form_factor(chain2)
    x = formulate_breit_wigner_with_form_factor(chain)
    x.parameters.clear()
    x.parameters[key] = value
    return formulate_breit_wigner_with_form_factor(chain)


def ref_predefined_again(chain, chain2, key, value):
    return BreitWignerBuilder()(chain)


# ---- serialized models
def serialized_again(model, options, other, options2, key, value):
    spoil(formulate(other, *options2), key, value)
    spoil(formulate(model, *options2), key, value)
    return formulate(model, *options)


def ref_serialized_again(model, options, other, options2, key, value):
    return formulate(model, *options)


def serialized_dynamics(model, chain):
    return [formulate_dynamics(chain, model), *[formulate_form_factor(v, model) for v in chain["vertices"]]]


def serialized_dynamics_again(model, chain, chain2, key, value):
    for x in serialized_dynamics(model, chain2) + serialized_dynamics(model, chain):
        x.parameters.clear()
        x.parameters[key] = value
        x.expression = value
    return serialized_dynamics(model, chain)


def ref_serialized_dynamics_again(model, chain, chain2, key, value):
    return serialized_dynamics(model, chain)


def serialized_kept(model, options, other, options2, key, value):
    first = formulate(model, *options)
    spoil(formulate(model, *options2), key, value)
    formulate(other, *options2)
    return content(first)


def ref_serialized_kept(model, options, other, options2, key, value):
    return content(formulate(model, *options))


def serialized_decay_again(model, other):
    to_decay(other)
    to_decay(model)
    return to_decay(model)


def ref_serialized_decay_again(model, other):
    return to_decay(model)


# ---- angles and spins
def angles_again(first, second):
    for i, j, k in first:
        formulate_zeta_angle(i, j, k)
        if i != 0:
            formulate_theta_hat_angle(i, j)
    return [formulate_zeta_angle(i, j, k) for i, j, k in second]


def ref_angles_again(first, second):
    return [formulate_zeta_angle(i, j, k) for i, j, k in second]


def spins_again(j, j1, j2, value):
    create_spin_range(j).append(value)
    generate_ls_couplings(j, j1, j2)
    return (create_spin_range(j), generate_ls_couplings(j, j1, j2))


def ref_spins_again(j, j1, j2, value):
    return (create_spin_range(j), generate_ls_couplings(j, j1, j2))
