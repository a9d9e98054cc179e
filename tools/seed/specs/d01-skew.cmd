d01-skew D01 src/adminserver/internal/usecase/logic
