s01-batch S01 src/adminserver/internal/usecase/db
