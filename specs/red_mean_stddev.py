from .reductions import units, v_of
UNITS = units('mean_stddev')
verify = v_of('mean_stddev')
