from .opstructs import UNITS as U, v_cmp as verify
UNITS = U['cmp']
