m01-receive-seq M01 src/metaserver/internal/usecase/logic
