m05-readonly M05 src/metaserver/internal/usecase/db
