from .reductions import units, v_of
UNITS = units('sum')
verify = v_of('sum')
