p01-flushfail P01 src/common/performance
