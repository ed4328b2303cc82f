CONSTANTS Inline = 3
MaxLen = 7
MaxCount = 5
SPECIFICATION Spec
VIEW View
INVARIANT Laws
