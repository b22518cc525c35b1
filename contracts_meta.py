"""static texts for the evidence files"""
ASSUMPTIONS = [
    "floating point values are treated as mathematical reals (rounding is outside the proof; the runtime companion runs IEEE doubles)",
    "integers are mathematical (no int64 overflow)",
    "logging, warnings, time and string formatting have no observable effect",
    "inputs have the dtypes/shapes written in the contract preconditions",
]
LEVELS = {}
