from .elementwise import UNITS_UNARY as UNITS, v_unary, v_assign
def verify(S):
    v_unary(S)
    v_assign(S)
