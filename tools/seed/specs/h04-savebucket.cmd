h04-savebucket H04 src/metaserver/internal/controller/grpc
