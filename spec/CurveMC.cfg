SPECIFICATION Spec
CONSTANT Primes = {5, 13, 29, 37, 53}
INVARIANTS TwoIsNotASquare DenIsNotZero Witnessed OnMontgomery Determines
CHECK_DEADLOCK FALSE
