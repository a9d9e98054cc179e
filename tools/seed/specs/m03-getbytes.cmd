m03-getbytes M03 src/metaserver/internal/usecase/repo
