a07-abort A07 src/apiserver/internal/usecase/componet/auth
