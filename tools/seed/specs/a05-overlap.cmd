a05-overlap A05 src/apiserver/internal/controller/http
