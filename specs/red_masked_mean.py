from .reductions import units, v_of
UNITS = units('masked_mean')
verify = v_of('masked_mean')
