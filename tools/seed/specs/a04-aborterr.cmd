a04-aborterr A04 src/apiserver/internal/usecase/service
