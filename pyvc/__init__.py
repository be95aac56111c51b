"""pyvc - a verification-condition generator for the real pybindgen code."""
