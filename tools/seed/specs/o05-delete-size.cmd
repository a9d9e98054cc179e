o05-delete-size O05 src/objectserver/internal/usecase/service
