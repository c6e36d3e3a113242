"""C13: hierarchy and metadata."""
import aviary.utils.develop_metadata as dm
from .. import data
from ..contracts import metadata


def main():
    return data.run_cases('C13', metadata.cases(), ['merged dictionaries of two variables and up to three parties', 'hierarchies of up to three parties, three levels deep'], 5000,
                          ['aviary.variable_info.variable_meta_data (every entry)', 'aviary.variable_info.variables (every attribute)', 'aviary.utils.develop_metadata.add_meta_data',
                           'aviary.utils.develop_metadata.update_meta_data', 'aviary.utils.merge_variable_metadata.merge_meta_data', 'aviary.utils.merge_variable_metadata.merge_2_meta_data_dicts',
                           'aviary.utils.merge_hierarchies.merge_hierarchies', 'aviary.utils.compare_hierarchies.compare_hierarchies_to_merge'], env_mods=(dm,))
