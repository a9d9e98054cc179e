a02-recondata A02 src/apiserver/internal/usecase/service
