n01-compress N01 src/objectserver/internal/controller/http/temp
