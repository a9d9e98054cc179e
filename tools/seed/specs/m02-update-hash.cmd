m02-update-hash M02 src/metaserver/internal/usecase/logic
