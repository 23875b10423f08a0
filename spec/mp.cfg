SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANT RepInv
INVARIANT Emit
PROPERTY StepsOK
CHECK_DEADLOCK FALSE
CONSTANTS
 KIND="mp" SORTED=FALSE MaxNodes=3 MaxAdds=8 StepBound=5 KEYMODE=0 EMIT=FALSE DELSETS=3
 MaxStep=50 MaxDepth=60 ND=10 NL=26
