o02-tempid O02 src/objectserver/internal/controller/http/temp
