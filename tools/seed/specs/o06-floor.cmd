o06-floor O06 src/objectserver/internal/usecase/service
