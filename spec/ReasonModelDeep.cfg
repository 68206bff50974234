SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS ReasonWhenRefused ReasonIsTheHarm Unharmed OneIsEnough TooManyStays
