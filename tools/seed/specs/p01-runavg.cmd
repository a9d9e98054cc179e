p01-runavg P01 src/common/performance
