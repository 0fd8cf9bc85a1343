from .reductions import units, v_of
UNITS = units('max')
verify = v_of('max')
