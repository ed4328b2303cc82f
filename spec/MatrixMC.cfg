CONSTANTS MaxR = 4
MaxC = 3
SPECIFICATION Spec
VIEW View
INVARIANT Shape
