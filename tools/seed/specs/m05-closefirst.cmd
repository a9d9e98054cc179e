m05-closefirst M05 src/metaserver/internal/usecase/db
