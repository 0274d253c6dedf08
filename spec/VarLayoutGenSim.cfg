SPECIFICATION RSpec
CONSTANTS Shapes <- ShapesSim
          Depth = 9
          MaxBlocks = 5
          Walks = 250
INVARIANTS EmitInv Bijection InDeclarationOrder Nearest
CHECK_DEADLOCK FALSE
