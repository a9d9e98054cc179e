o04-locate-index O04 src/objectserver/internal/usecase/service
