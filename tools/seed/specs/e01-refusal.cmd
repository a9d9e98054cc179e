e01-refusal E01 src/adminserver/internal/usecase/logic
