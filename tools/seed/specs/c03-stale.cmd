c03-stale C03 src/common/proto/msg
