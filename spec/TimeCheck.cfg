SPECIFICATION JSpec
CONSTANT LastDay = 0
