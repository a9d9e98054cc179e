d01-notfound D01 src/adminserver/internal/usecase/logic
