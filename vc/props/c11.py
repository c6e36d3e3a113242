"""C11: named values with units are a faithful map."""
from .. import data
from ..contracts import values


def main():
    return data.run_cases('C11', values.cases(), [
        'OpenMDAO unit_conversion factors are correct', 'updates from another collection are unrolled for up to three entries',
        'container shapes: scalars, lists / tuples / arrays of 0 to 3 entries, one level of nesting'], 8000,
        ['aviary.utils.named_values.NamedValues.' + m for m in ('__init__', 'set_val', 'get_val', 'get_item', 'update', 'delete', 'clear', 'copy', 'deepcopy', 'keys', 'items',
                                                                'values', '__iter__', '__len__', '__contains__', '_check_units')]
        + ['aviary.utils.aviary_values.AviaryValues.' + m for m in ('set_val', '_check_units_compatibility')]
        + ['aviary.utils.utils.' + m for m in ('wrapped_convert_units', 'cast_type', 'check_type', 'enum_setter', 'isiterable')])
