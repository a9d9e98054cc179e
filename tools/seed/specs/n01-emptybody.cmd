n01-emptybody N01 src/metaserver/internal/controller/http
