from .elementwise import UNITS_BINARY as UNITS, v_binary
def verify(S):
    v_binary(S)
