from .reductions import units, v_of
UNITS = units('mean')
verify = v_of('mean')
