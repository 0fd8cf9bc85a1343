from .reductions import units, v_of
UNITS = units('stddev')
verify = v_of('stddev')
