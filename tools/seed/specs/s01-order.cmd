s01-order S01 src/adminserver/internal/usecase/db
