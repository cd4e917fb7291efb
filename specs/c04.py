# c04
