h03-swallow H03 src/metaserver/internal/usecase/service
