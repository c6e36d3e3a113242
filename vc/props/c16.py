"""C16: engine deck processing."""
import aviary.subsystems.propulsion.engine_deck as ed
from aviary.variable_info.variable_meta_data import CoreMetaData
from .. import data
from ..contracts import engine


def main():
    return data.run_cases('C16', engine.cases(), ['decks on the grids enumerated; Mach numbers at least 0.05 and altitudes at least 100 ft apart',
                                                  'throttle points of one flight condition at least 1 apart'], 8000,
                          ['aviary.subsystems.propulsion.engine_deck.EngineDeck.' + n for n in ('_read_data', '_check_data', '_set_reference_thrust', '_normalize_throttle', '_generate_flight_idle',
                           '_sort_data', '_pack_data', '_count_data', '_build_engine_interpolator')] + ['aviary.subsystems.propulsion.engine_deck.normalize', 'aviary.subsystems.propulsion.engine_deck.extend_array'],
                          env_mods=(ed,), env_metas=(CoreMetaData,))
