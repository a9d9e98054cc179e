a03-tolerance A03 src/apiserver/internal/usecase/service
