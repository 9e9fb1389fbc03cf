CONSTANTS nv <- E_nv NS <- E_NS Size0 <- E_Size0 Limit <- E_Limit MinFree <- E_MinFree MaxInc <- E_MaxInc
 CacheMod <- E_CacheMod MaxRef <- E_MaxRef MaxSize <- E_MaxSize
SPECIFICATION SimSpec
INVARIANTS Inv Walked
CHECK_DEADLOCK FALSE
