m04-break M04 src/metaserver/internal/usecase/service
