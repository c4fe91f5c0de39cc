CONSTANTS Bodies = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
          Cap = 8
INIT Init
NEXT Next
INVARIANTS NoRepeats Bounded TwiceIsNothing LeaveRemovesOne Vacuum
INVARIANT SimEmit
