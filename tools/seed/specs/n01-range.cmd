n01-range N01 src/apiserver/internal/entity
