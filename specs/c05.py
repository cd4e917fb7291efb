# c05
