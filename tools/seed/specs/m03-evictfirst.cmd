m03-evictfirst M03 src/metaserver/internal/usecase/repo
