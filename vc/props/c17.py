"""C17: the aircraft data reaches the components."""
import aviary.utils.aviary_options_dict as od
import aviary.utils.functions as uf
import aviary.utils.utils as uu
import aviary.variable_info.functions as vf
from .. import data
from aviary.variable_info.variable_meta_data import CoreMetaData
from ..contracts import options


def main():
    return data.run_cases('C17', options.cases(), ['up to three engine types, two overridden variables, groups two levels deep, three phases, two external parameters',
                                                   'OpenMDAO: promotion, input defaults and option dictionaries do what their documentation says; dymos: a list of targets for a phase adds the parameter to that phase'], 20000,
                          ['aviary.variable_info.functions.add_aviary_input', 'aviary.variable_info.functions.add_aviary_output', 'aviary.variable_info.functions.add_aviary_option',
                           'aviary.variable_info.functions.override_aviary_vars', 'aviary.variable_info.functions.setup_trajectory_params', 'aviary.variable_info.functions.extract_options',
                           'aviary.variable_info.functions.setup_model_options', 'aviary.utils.functions.set_aviary_initial_values', 'aviary.utils.functions.set_aviary_input_defaults',
                           'aviary.utils.aviary_options_dict.units_setter'], env_mods=(od, uf, uu, vf), env_metas=(CoreMetaData,))
