CONSTANTS
    P = "C02"
SPECIFICATION Spec
