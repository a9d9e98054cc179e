m02-dotname M02 src/metaserver/internal/usecase/service
