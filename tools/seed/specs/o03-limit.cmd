o03-limit O03 src/common/system/disk
