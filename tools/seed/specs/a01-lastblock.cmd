a01-lastblock A01 src/apiserver/internal/usecase/service
