CONSTANTS
  Base = 1073741824
SPECIFICATION Spec
