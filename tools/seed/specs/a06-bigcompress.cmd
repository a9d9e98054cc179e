a06-bigcompress A06 src/apiserver/internal/controller/http
