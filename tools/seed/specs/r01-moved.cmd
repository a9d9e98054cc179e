r01-moved R01 src/common/registry
