INIT Init
NEXT Next
INVARIANTS Spelled OneName OnlyListed EveryListed MediaDistinct Emit
CHECK_DEADLOCK FALSE
