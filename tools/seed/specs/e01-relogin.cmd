e01-relogin E01 src/adminserver/internal/controller/http
