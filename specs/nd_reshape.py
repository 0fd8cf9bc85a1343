from . import tensor
UNITS = tensor.UNITS['reshape']
verify = tensor.verify_reshape
