SPECIFICATION GSpec
CONSTANTS Shapes <- ShapesExh
          Depth = 3
          MaxBlocks = 3
          Walks = 1
INVARIANTS EmitInv Bijection InDeclarationOrder Nearest
CHECK_DEADLOCK FALSE
