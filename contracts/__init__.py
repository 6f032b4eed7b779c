"""Contracts of the functions of /repo/openquake/commonlib, by area."""
AREAS = {}
for _area, _ids in [
        ('c_general', 'C01 C02 C03 C04 C05 C06'),
        ('c_valid', 'C07 C08 C09'),
        ('c_record', 'C10 C11 C12 C13 C14'),
        ('c_csv', 'C15 C16 C41'),
        ('c_converter', 'C17 C18 C19 C20'),
        ('c_risk', 'C21 C22'),
        ('c_readini', 'C23'),
        ('c_source', 'C24 C25 C26 C27 C28'),
        ('c_logictree', 'C29 C30 C31 C32 C33 C34 C35'),
        ('c_parallel', 'C36 C37 C38 C39 C40')]:
    for _i in _ids.split():
        AREAS[_i] = _area

from .meta import META      # noqa
