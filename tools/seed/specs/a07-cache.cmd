a07-cache A07 src/apiserver/internal/usecase/componet/auth
