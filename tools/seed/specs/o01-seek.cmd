o01-seek O01 src/objectserver/internal/usecase/service
