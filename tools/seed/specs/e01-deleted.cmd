e01-deleted E01 src/adminserver/internal/usecase/webapi
