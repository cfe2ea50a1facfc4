SPECIFICATION Spec
CONSTANT Props = {"P01","P02","P03","P04","P05","P06","P07","P08","P09","P10","P11","P12","P15","P16","P22","P23","P24","P25","P26"}
INVARIANT NoViolation
ALIAS Show
CHECK_DEADLOCK TRUE
