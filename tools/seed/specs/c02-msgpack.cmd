c02-msgpack C02 src/common/datasize
