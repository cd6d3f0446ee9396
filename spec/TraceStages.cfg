CONSTANTS
  Base = 1073741824
  P = "C05"
SPECIFICATION Spec
