"""C12: preprocessing."""
import aviary.utils.preprocessors as pp
import aviary.utils.utils as uu
from aviary.variable_info.variable_meta_data import CoreMetaData
from .. import data
from ..contracts import preproc


def main():
    return data.run_cases('C12', preproc.cases(), [
        'counts are non-negative integers', 'one to three engine types'], 3000,
        ['aviary.utils.preprocessors.' + f for f in ('preprocess_options', 'preprocess_crewpayload', 'preprocess_fuel_capacities', 'preprocess_propulsion')]
        + ['aviary.subsystems.propulsion.engine_model.EngineModel._preprocess_inputs'], env_mods=(pp, uu), env_metas=(CoreMetaData,))
