from .reductions import units, v_of
UNITS = units('masked_stddev')
verify = v_of('masked_stddev')
