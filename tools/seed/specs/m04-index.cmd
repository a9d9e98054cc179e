m04-index M04 src/metaserver/internal/usecase/repo
