r01-grant R01 src/common/registry
