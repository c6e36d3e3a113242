"""C15: file exchange."""
import aviary.utils.csv_data_file as cdf
import aviary.utils.functions as fn
import aviary.utils.process_input_decks as pid
import aviary.utils.utils as uu
from .. import data
from aviary.variable_info.variable_meta_data import CoreMetaData
from ..contracts import files


def main():
    return data.run_cases('C15', files.cases(), ['tables of up to three columns and rows; decks of up to three lines', 'Python: float(str(x)) == x and int(str(n)) == n; json round-trips numbers',
                                                 'names, units and text values are the ones enumerated'], 3000,
                          ['aviary.utils.csv_data_file.read_data_file', 'aviary.utils.csv_data_file.write_data_file', 'aviary.utils.process_input_decks.parse_inputs',
                           'aviary.utils.process_input_decks.create_vehicle', 'aviary.utils.functions.convert_strings_to_data', 'aviary.utils.aviary_inputs_to_csv.save_to_csv_file',
                           'aviary.core.aviary_problem.AviaryProblem.save_results', 'aviary.core.aviary_problem._read_sizing_json'], env_mods=(cdf, fn, pid, uu), env_metas=(CoreMetaData,))
