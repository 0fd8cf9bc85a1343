from .reductions import units, v_of
UNITS = units('masked_mean_stddev')
verify = v_of('masked_mean_stddev')
