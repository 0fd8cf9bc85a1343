from .elementwise import UNITS_SCALAR as UNITS, v_scalar
def verify(S):
    v_scalar(S)
