from . import tensor
UNITS = tensor.UNITS['slice']
verify = tensor.verify_slice
