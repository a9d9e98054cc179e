a08-reuse A08 src/apiserver/internal/usecase/componet/selector
