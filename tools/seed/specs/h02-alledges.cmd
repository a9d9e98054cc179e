h02-alledges H02 src/metaserver/internal/usecase/service
