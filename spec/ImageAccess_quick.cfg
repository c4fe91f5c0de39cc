CONSTANTS Sizes <- SmallSizes
          Vals = 1
          Probe = 1
INIT Init
NEXT Next
INVARIANTS TypeOK AtCentres
PROPERTIES ReadsDoNotWrite CopiesIndependent
VIEW View
ACTION_CONSTRAINT Emit
