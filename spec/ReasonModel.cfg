SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS ReasonWhenRefused ReasonIsTheHarm Unharmed OneIsEnough TooManyStays Case
