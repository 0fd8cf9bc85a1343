from .opstructs import UNITS as U, v_arith as verify
UNITS = U['arith']
