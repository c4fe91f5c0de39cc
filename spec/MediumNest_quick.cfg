CONSTANTS Bodies = {1, 2, 3, 4}
          Cap = 8
INIT Init
NEXT Next
INVARIANTS NoRepeats Bounded TwiceIsNothing LeaveRemovesOne Vacuum
VIEW View
ACTION_CONSTRAINT Emit
